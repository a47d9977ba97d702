// Runtime of the symbolic execution engine: expression DAG, shadow memory, Z3 back end, path exploration.
#include "ops.h"
#include "arena.h"
#include <sys/mman.h>
#include "vp.h"
#include <z3++.h>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <link.h>
#include <map>
#include <poll.h>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

static const unsigned SMALL = 1024;	// variables with at most this many values are handled by tables
static const unsigned DW = SMALL / 64;

static inline u128 maskw (unsigned w) { return w >= 128 ? ~(u128) 0 : (((u128) 1 << w) - 1); }
static inline u64 mask64 (unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx (u64 v, unsigned w) { return w >= 64 ? (i64) v : (i64) (v << (64 - w)) >> (64 - w); }

// ---------------------------------------------------------------------------------------------- expressions
struct VarSet { std::vector<u64> bits; u64 hash; };

struct Expr
{
	uint8_t op;
	bool fp;           // some FP operation somewhere beneath
	uint16_t w;        // width in bits
	uint32_t aux;      // extract low bit / variable index
	u128 val;          // constant
	u128 cval;         // value under the current input
	Expr* k[3];
	const u64* tab;    // OP_TAB: values for each value of the variable
	const VarSet* sup;
	u64 umin, umax;    // unsigned bounds (w <= 64)
	i64 smin, smax;    // signed bounds (w <= 64)
	double flo, fhi;   // bounds of a floating-point result (valid if fb)
	bool fb;
	u64 hash;
	uint32_t id;
};

struct Dom { u64 b[DW]; };
struct Var
{
	std::string name;
	unsigned w;        // bits
	u64 n;             // values 0..n-1 (0: full 64-bit range)
	u64 cur;
	bool small;
	Dom dom;           // small: values still possible on this path
	bool entangled;    // occurs in a constraint with other variables
	Expr* e;
};

static std::vector<Var> vars;

template <class T> static T* arena (size_t n = 1)
{
	static char* p = nullptr; static size_t left = 0;
	size_t sz = (sizeof(T) * n + 15) & ~15ull;
	if (sz > left) {
		size_t chunk = std::max(sz, (size_t) 1 << 20);
		p = (char*) mmap(nullptr, chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		left = chunk;
	}
	T* r = (T*) p; p += sz; left -= sz;
	return r;
}

struct ExprHash { size_t operator() (Expr* e) const { return e->hash; } };
struct ExprEq
{
	bool operator() (Expr* a, Expr* b) const
	{
		if (a->hash != b->hash || a->op != b->op || a->w != b->w || a->aux != b->aux || a->val != b->val || a->k[0] != b->k[0] || a->k[1] != b->k[1] || a->k[2] != b->k[2]) return false;
		if (a->op == OP_TAB) return a->tab == b->tab || memcmp(a->tab, b->tab, vars[a->aux].n * 8) == 0;
		return true;
	}
};
static std::unordered_set<Expr*, ExprHash, ExprEq>* table;
static uint32_t nextId;
static u64 nExprs;

static inline u64 mix (u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }

static const VarSet* emptySet;
static std::unordered_map<u64, std::vector<const VarSet*>>* sets;
static const VarSet* internSet (std::vector<u64> const& b)
{
	u64 h = 77;
	for (auto x: b) h = mix(h, x);
	auto& v = (*sets)[h];
	for (auto s: v) if (s->bits == b) return s;
	auto s = new VarSet{b, h};
	v.push_back(s);
	return s;
}
static const VarSet* unionSet (const VarSet* a, const VarSet* b)
{
	if (a == b || b == emptySet) return a;
	if (a == emptySet) return b;
	std::vector<u64> r(std::max(a->bits.size(), b->bits.size()));
	for (size_t i = 0; i < a->bits.size(); ++i) r[i] |= a->bits[i];
	for (size_t i = 0; i < b->bits.size(); ++i) r[i] |= b->bits[i];
	return internSet(r);
}
static const VarSet* singleSet (unsigned v)
{
	std::vector<u64> r(v / 64 + 1);
	r[v / 64] |= 1ull << (v % 64);
	return internSet(r);
}
static bool intersects (const VarSet* a, const VarSet* b)
{
	size_t n = std::min(a->bits.size(), b->bits.size());
	for (size_t i = 0; i < n; ++i) if (a->bits[i] & b->bits[i]) return true;
	return false;
}

[[noreturn]] static void dieInternal (const char* m);
void* cxaAlloc (size_t n);
static void event (const char* kind, std::string const& text);

// ---- evaluation of one operation on concrete values
static inline double asD (u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline float asF (u64 v) { uint32_t x = v; float f; memcpy(&f, &x, 4); return f; }
static inline u64 fromD (double d) { u64 v; memcpy(&v, &d, 8); return v; }
static inline u64 fromF (float f) { uint32_t v; memcpy(&v, &f, 4); return v; }

static bool isCmp (int op) { return (op >= OP_EQ && op <= OP_SLE) || (op >= OP_UADDO && op <= OP_SMULO) || (op >= OP_FOEQ && op <= OP_FUNE); }
static bool isFpOp (int op) { return op >= OP_FADD; }

static u64 evalBin (int op, unsigned w, u64 a, u64 b)
{
	u64 m = mask64(w);
	switch (op) {
	case OP_ADD: return (a + b) & m;
	case OP_SUB: return (a - b) & m;
	case OP_MUL: return (a * b) & m;
	case OP_UDIV: return b ? (a / b) & m : m;
	case OP_UREM: return b ? (a % b) & m : a;
	case OP_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (u64) x) & m; return (u64) (x / y) & m; }
	case OP_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64) (x % y) & m; }
	case OP_SHL: return b >= w ? 0 : (a << b) & m;
	case OP_LSHR: return b >= w ? 0 : a >> b;
	case OP_ASHR: return (u64) (sx(a, w) >> (b >= w ? (w - 1 > 63 ? 63 : w - 1) : b)) & m;
	case OP_AND: return a & b;
	case OP_OR: return a | b;
	case OP_XOR: return a ^ b;
	case OP_EQ: return a == b;
	case OP_NE: return a != b;
	case OP_UGT: return a > b; case OP_UGE: return a >= b; case OP_ULT: return a < b; case OP_ULE: return a <= b;
	case OP_SGT: return sx(a, w) > sx(b, w); case OP_SGE: return sx(a, w) >= sx(b, w); case OP_SLT: return sx(a, w) < sx(b, w); case OP_SLE: return sx(a, w) <= sx(b, w);
	case OP_UMIN: return std::min(a, b); case OP_UMAX: return std::max(a, b);
	case OP_SMIN: return sx(a, w) < sx(b, w) ? a : b; case OP_SMAX: return sx(a, w) > sx(b, w) ? a : b;
	case OP_USUBSAT: return a > b ? a - b : 0; case OP_UADDSAT: return (u128) a + b > m ? m : a + b;
	case OP_UADDO: return (u128) a + b > m;
	case OP_USUBO: return b > a;
	case OP_UMULO: return (u128) a * b > m;
	case OP_SADDO: { i128 r = (i128) sx(a, w) + sx(b, w); return r != (i128) sx((u64) r & m, w); }
	case OP_SSUBO: { i128 r = (i128) sx(a, w) - sx(b, w); return r != (i128) sx((u64) r & m, w); }
	case OP_SMULO: { i128 r = (i128) sx(a, w) * sx(b, w); return r != (i128) sx((u64) r & m, w); }
	}
	if (w == 64) {
		double x = asD(a), y = asD(b);
		switch (op) {
		case OP_FADD: return fromD(x + y); case OP_FSUB: return fromD(x - y); case OP_FMUL: return fromD(x * y); case OP_FDIV: return fromD(x / y);
		case OP_FREM: return fromD(fmod(x, y)); case OP_FMIN: return fromD(fmin(x, y)); case OP_FMAX: return fromD(fmax(x, y)); case OP_COPYSIGN: return fromD(copysign(x, y));
		case OP_FOEQ: return x == y; case OP_FOGT: return x > y; case OP_FOGE: return x >= y; case OP_FOLT: return x < y; case OP_FOLE: return x <= y;
		case OP_FONE: return x < y || x > y; case OP_FORD: return !std::isnan(x) && !std::isnan(y); case OP_FUNO: return std::isnan(x) || std::isnan(y);
		case OP_FUEQ: return !(x < y || x > y); case OP_FUGT: return !(x <= y); case OP_FUGE: return !(x < y); case OP_FULT: return !(x >= y); case OP_FULE: return !(x > y); case OP_FUNE: return x != y;
		}
	} else {
		float x = asF(a), y = asF(b);
		switch (op) {
		case OP_FADD: return fromF(x + y); case OP_FSUB: return fromF(x - y); case OP_FMUL: return fromF(x * y); case OP_FDIV: return fromF(x / y);
		case OP_FREM: return fromF(fmodf(x, y)); case OP_FMIN: return fromF(fminf(x, y)); case OP_FMAX: return fromF(fmaxf(x, y)); case OP_COPYSIGN: return fromF(copysignf(x, y));
		case OP_FOEQ: return x == y; case OP_FOGT: return x > y; case OP_FOGE: return x >= y; case OP_FOLT: return x < y; case OP_FOLE: return x <= y;
		case OP_FONE: return x < y || x > y; case OP_FORD: return !std::isnan(x) && !std::isnan(y); case OP_FUNO: return std::isnan(x) || std::isnan(y);
		case OP_FUEQ: return !(x < y || x > y); case OP_FUGT: return !(x <= y); case OP_FUGE: return !(x < y); case OP_FULT: return !(x >= y); case OP_FULE: return !(x > y); case OP_FUNE: return x != y;
		}
	}
	dieInternal(("evalBin " + std::to_string(op)).c_str());
}

static u64 evalUn (int op, unsigned fw, unsigned tw, u64 a)
{
	switch (op) {
	case OP_ZEXT: return a;
	case OP_SEXT: return (u64) sx(a, fw) & mask64(tw);
	case OP_TRUNC: return a & mask64(tw);
	case OP_NOT: return !a;
	case OP_ABS: { i64 x = sx(a, fw); return (x < 0 ? 0 - (u64) x : (u64) x) & mask64(fw); }
	case OP_BSWAP: return __builtin_bswap64(a) >> (64 - fw);
	case OP_CTPOP: return __builtin_popcountll(a);
	case OP_CTLZ: return a ? __builtin_clzll(a) - (64 - fw) : fw;
	case OP_CTTZ: return a ? __builtin_ctzll(a) : fw;
	case OP_SITOFP: return tw == 64 ? fromD((double) sx(a, fw)) : fromF((float) sx(a, fw));
	case OP_UITOFP: return tw == 64 ? fromD((double) a) : fromF((float) a);
	case OP_FPTOSI: {
		double x = fw == 64 ? asD(a) : asF(a);
		// what x86 does, out of range
		if (tw > 32) { if (!(x > -9.3e18 && x < 9.3e18)) return 1ull << 63; return (u64) (i64) x & mask64(tw); }
		if (tw == 32) { if (!(x > -2147483649.0 && x < 2147483648.0)) return 0x80000000ull; return (u64) (i64) (int32_t) x & mask64(32); }
		if (!(x > -2147483649.0 && x < 2147483648.0)) return 0;
		return (u64) (i64) (int32_t) x & mask64(tw);
	}
	case OP_FPTOUI: { double x = fw == 64 ? asD(a) : asF(a); if (!(x > -9.3e18 && x < 1.85e19)) return mask64(tw); return (x < 0 ? (u64) (i64) x : (u64) x) & mask64(tw); }
	case OP_FPEXT: return fromD((double) asF(a));
	case OP_FPTRUNC: return fromF((float) asD(a));
	}
	if (fw == 64) {
		double x = asD(a);
		switch (op) {
		case OP_FNEG: return a ^ (1ull << 63); case OP_FABS: return a & ~(1ull << 63); case OP_RINT: return fromD(rint(x)); case OP_FLOOR: return fromD(floor(x));
		case OP_CEIL: return fromD(ceil(x)); case OP_FTRUNC: return fromD(trunc(x)); case OP_ROUND: return fromD(round(x)); case OP_SQRT: return fromD(sqrt(x));
		}
	} else {
		float x = asF(a);
		switch (op) {
		case OP_FNEG: return a ^ (1ull << 31); case OP_FABS: return a & ~(1ull << 31); case OP_RINT: return fromF(rintf(x)); case OP_FLOOR: return fromF(floorf(x));
		case OP_CEIL: return fromF(ceilf(x)); case OP_FTRUNC: return fromF(truncf(x)); case OP_ROUND: return fromF(roundf(x)); case OP_SQRT: return fromF(sqrtf(x));
		}
	}
	dieInternal("evalUn");
}

// ---- construction
static Expr* intern (Expr const& proto)
{
	Expr t = proto;
	u64 h = mix(t.op, t.w);
	h = mix(h, t.aux); h = mix(h, (u64) t.val); h = mix(h, (u64) (t.val >> 64));
	for (int i = 0; i < 3; ++i) h = mix(h, t.k[i] ? t.k[i]->id + 1 : 0);
	if (t.op == OP_TAB) { u64 n = vars[t.aux].n; for (u64 i = 0; i < n; ++i) h = mix(h, t.tab[i]); }
	t.hash = h;
	auto i = table->find(&t);
	if (i != table->end()) return *i;
	Expr* e = arena<Expr>();
	*e = t;
	if (t.op == OP_TAB) {
		u64 n = vars[t.aux].n;
		u64* c = arena<u64>(n);
		memcpy(c, t.tab, n * 8);
		e->tab = c;
	}
	e->id = ++nextId;
	++nExprs;
	table->insert(e);
	return e;
}

static Expr* mkConst (unsigned w, u128 v)
{
	Expr t; memset(&t, 0, sizeof t);
	t.op = OP_CONST; t.w = w; t.val = t.cval = v & maskw(w);
	t.sup = emptySet;
	t.umin = t.umax = (u64) t.val;
	t.smin = t.smax = sx((u64) t.val, w > 64 ? 64 : w);
	return intern(t);
}
static inline bool isC (Expr* e) { return e->op == OP_CONST; }
static inline bool isCV (Expr* e, u64 v) { return e->op == OP_CONST && e->val == v; }
static Expr* TRUE_ () { return mkConst(1, 1); }
static Expr* FALSE_ () { return mkConst(1, 0); }

static inline bool inDom (Var const& v, u64 i) { return v.dom.b[i >> 6] >> (i & 63) & 1; }

// ---- second opinion: on some paths, everything that was decided on the domains of variables is put to Z3 again, as formulas over
// the whole ranges of the inputs, under the conditions the path had taken by then (before they were turned into domains)
static bool certify;
static bool building;
static std::vector<Expr*> trail;		// conditions taken, as they were met
struct Claim { size_t pos; Expr* e; };
static std::vector<Claim> claims;
static std::unordered_set<Expr*>* claimed;
static void taken (Expr* c) { if (certify && c->op != OP_CONST) trail.push_back(c); }
static void claim (Expr* e)
{
	if (!certify || building || e->op == OP_CONST || claims.size() >= 2000) return;
	if (claimed->insert(e).second) claims.push_back({trail.size(), e});
}
// the variable is one of the values for which tab has value x
static void claimTab (unsigned var, u64 const* tab, u64 x)
{
	if (!certify || building || claims.size() >= 2000) return;
	u64 buf[SMALL];
	bool all = true;
	u64 n = vars[var].n;
	for (u64 i = 0; i < n; ++i) { buf[i] = tab[i] == x; all = all && buf[i]; }
	if (all) return;
	Expr t; memset(&t, 0, sizeof t);
	t.op = OP_TAB; t.w = 1; t.aux = var; t.tab = buf;
	t.cval = buf[vars[var].cur];
	t.sup = vars[var].e ? vars[var].e->sup : singleSet(var);
	t.umax = 1; t.smin = -1;
	claim(intern(t));
}

// table expression; folds to a constant if all values still possible give the same
static Expr* mkTab (unsigned var, unsigned w, u64* tab)
{
	Var& v = vars[var];
	u64 mn = ~0ull, mx = 0;
	for (u64 i = 0; i < v.n; ++i) if (inDom(v, i)) { mn = std::min(mn, tab[i]); mx = std::max(mx, tab[i]); }
	if (mn == mx) { claimTab(var, tab, mn); return mkConst(w, mn); }
	Expr t; memset(&t, 0, sizeof t);
	t.op = OP_TAB; t.w = w; t.aux = var; t.tab = tab;
	t.cval = tab[v.cur];
	t.sup = v.e ? v.e->sup : singleSet(var);
	t.umin = mn; t.umax = mx;
	i64 sn = INT64_MAX, sm = INT64_MIN;
	for (u64 i = 0; i < v.n; ++i) if (inDom(v, i)) { i64 x = sx(tab[i], w); sn = std::min(sn, x); sm = std::max(sm, x); }
	t.smin = sn; t.smax = sm;
	return intern(t);
}
// constant now, on this path?
static Expr* narrow (Expr* e)
{
	if (e->op == OP_TAB) {
		Var& v = vars[e->aux];
		u64 mn = ~0ull, mx = 0;
		for (unsigned k = 0; k < (v.n + 63) / 64; ++k) {
			u64 b = v.dom.b[k];
			while (b) { u64 i = k * 64 + __builtin_ctzll(b); b &= b - 1; u64 x = e->tab[i]; mn = std::min(mn, x); mx = std::max(mx, x); if (mn != mx) return e; }
		}
		claimTab(e->aux, e->tab, mn);
		return mkConst(e->w, mn);
	}
	return e;
}

static std::unordered_map<Expr*, bool>* known;	// formulas asserted on this path (true) or their negation (false)

static Expr* mkBin (int op, unsigned w, Expr* a, Expr* b);
static Expr* mkUn (int op, unsigned tw, Expr* a);
static Expr* mkIte (Expr* c, Expr* a, Expr* b);
static Expr* mkNot (Expr* a);
static Expr* mkExtract (Expr* a, unsigned lo, unsigned w);
static Expr* mkConcat (Expr* hi, Expr* lo);

static i64 smaxOf (unsigned w) { return (i64) (mask64(w) >> 1); }
static i64 sminOf (unsigned w) { return -smaxOf(w) - 1; }

// bounds of the floating-point value of e; false if not known
static bool fpBounds (Expr* e, double& lo, double& hi)
{
	auto one = [&](u64 v) { return e->w == 64 ? asD(v) : (double) asF(v); };
	if (e->w != 32 && e->w != 64) return false;
	if (isC(e)) { lo = hi = one((u64) e->val); return std::isfinite(lo); }
	if (e->op == OP_TAB) {
		Var& v = vars[e->aux];
		lo = HUGE_VAL; hi = -HUGE_VAL;
		for (u64 i = 0; i < v.n; ++i) if (inDom(v, i)) { double x = one(e->tab[i]); if (!std::isfinite(x)) return false; lo = std::min(lo, x); hi = std::max(hi, x); }
		return lo <= hi;
	}
	lo = e->flo; hi = e->fhi;
	return e->fb;
}

// signed and floating-point bounds of a node whose unsigned bounds are known
static void bounds (Expr& t)
{
	Expr *a = t.k[0], *b = t.k[1], *c = t.k[2];
	unsigned w = t.w;
	if (w > 64) { t.smin = INT64_MIN; t.smax = INT64_MAX; return; }
	i64 lo = sminOf(w), hi = smaxOf(w);
	auto set = [&](i128 x, i128 y) { if (x >= sminOf(w) && y <= smaxOf(w)) { lo = std::max(lo, (i64) x); hi = std::min(hi, (i64) y); } };
	auto corners = [&](std::function<i128 (i128, i128)> f) {
		i128 v[4] = {f(a->smin, b->smin), f(a->smin, b->smax), f(a->smax, b->smin), f(a->smax, b->smax)};
		set(std::min(std::min(v[0], v[1]), std::min(v[2], v[3])), std::max(std::max(v[0], v[1]), std::max(v[2], v[3])));
	};
	switch (t.op) {
	case OP_ADD: set((i128) a->smin + b->smin, (i128) a->smax + b->smax); break;
	case OP_SUB: set((i128) a->smin - b->smax, (i128) a->smax - b->smin); break;
	case OP_MUL: corners([](i128 x, i128 y) { return x * y; }); break;
	case OP_SDIV: if (b->smin > 0) corners([](i128 x, i128 y) { return x / y; }); break;
	case OP_SREM: if (b->smin > 0) set(std::max<i128>(a->smin >= 0 ? 0 : -(i128) (b->smax - 1), std::min<i128>(a->smin, 0)), std::min<i128>(a->smax < 0 ? 0 : b->smax - 1, std::max<i128>(a->smax, 0))); break;
	case OP_ASHR: if (isC(b) && b->val < w) set(a->smin >> (int) b->val, a->smax >> (int) b->val); break;
	case OP_ITE: set(std::min(b->smin, c->smin), std::max(b->smax, c->smax)); break;
	case OP_SEXT: set(a->smin, a->smax); break;
	case OP_EXTRACT: if (t.aux == 0 && a->w <= 64) set(a->smin, a->smax); break;
	case OP_CONCAT: if (isC(b) && b->val == 0 && a->op == OP_EXTRACT && a->aux == 0 && a->k[0]->w == w) set((i128) a->k[0]->smin << b->w, (i128) a->k[0]->smax << b->w); break;
	case OP_FPTOSI: { double x, y; if (fpBounds(a, x, y) && fabs(x) < 9e18 && fabs(y) < 9e18) set((i128) trunc(x), (i128) trunc(y)); break; }
	case OP_FPTOUI: { double x, y; if (fpBounds(a, x, y) && x > -1 && y < 9e18 && trunc(y) <= (double) mask64(w)) { t.umin = std::max(t.umin, (u64) trunc(x)); t.umax = std::min(t.umax, (u64) trunc(y)); } break; }
	}
	if (t.umax <= (u64) smaxOf(w)) { lo = std::max(lo, (i64) t.umin); hi = std::min(hi, (i64) t.umax); }
	if (lo >= 0) { t.umin = std::max(t.umin, (u64) lo); t.umax = std::min(t.umax, (u64) hi); }
	t.smin = lo; t.smax = hi;

	t.fb = false;
	if (!isFpOp(t.op) && t.op != OP_ITE) return;
	if (isCmp(t.op) || (w != 32 && w != 64) || t.op == OP_FPTOSI || t.op == OP_FPTOUI) return;
	double al = 0, ah = 0, bl = 0, bh = 0;
	auto rnd = [&](double x) { return w == 32 ? (double) (float) x : x; };
	auto fset = [&](double x, double y) { x = rnd(x); y = rnd(y); if (std::isfinite(x) && std::isfinite(y)) { t.flo = x; t.fhi = y; t.fb = true; } };
	if (t.op == OP_ITE) { if (fpBounds(b, al, ah) && fpBounds(c, bl, bh)) fset(std::min(al, bl), std::max(ah, bh)); return; }
	if (t.op == OP_SITOFP) { if (a->w <= 64) fset(w == 32 ? (double) (float) a->smin : (double) a->smin, w == 32 ? (double) (float) a->smax : (double) a->smax); return; }
	if (t.op == OP_UITOFP) { if (a->w <= 64) fset(w == 32 ? (double) (float) a->umin : (double) a->umin, w == 32 ? (double) (float) a->umax : (double) a->umax); return; }
	if (!fpBounds(a, al, ah) || (b && !fpBounds(b, bl, bh))) return;
	auto fcorners = [&](std::function<double (double, double)> f) {
		double v[4] = {f(al, bl), f(al, bh), f(ah, bl), f(ah, bh)};
		fset(std::min(std::min(v[0], v[1]), std::min(v[2], v[3])), std::max(std::max(v[0], v[1]), std::max(v[2], v[3])));
	};
	switch (t.op) {
	case OP_FADD: fset(al + bl, ah + bh); break;
	case OP_FSUB: fset(al - bh, ah - bl); break;
	case OP_FMUL: fcorners([](double x, double y) { return x * y; }); break;
	case OP_FDIV: if (bl > 0 || bh < 0) fcorners([](double x, double y) { return x / y; }); break;
	case OP_FMIN: fset(std::min(al, bl), std::min(ah, bh)); break;
	case OP_FMAX: fset(std::max(al, bl), std::max(ah, bh)); break;
	case OP_FNEG: fset(-ah, -al); break;
	case OP_FABS: fset(al > 0 ? al : ah < 0 ? -ah : 0, std::max(fabs(al), fabs(ah))); break;
	case OP_RINT: fset(rint(al), rint(ah)); break;
	case OP_FLOOR: fset(floor(al), floor(ah)); break;
	case OP_CEIL: fset(ceil(al), ceil(ah)); break;
	case OP_FTRUNC: fset(trunc(al), trunc(ah)); break;
	case OP_ROUND: fset(round(al), round(ah)); break;
	case OP_FPEXT: case OP_FPTRUNC: fset(al, ah); break;
	}
}

static Expr* node (int op, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, unsigned aux = 0)
{
	Expr t; memset(&t, 0, sizeof t);
	t.op = op; t.w = w; t.aux = aux;
	t.k[0] = a; t.k[1] = b; t.k[2] = c;
	t.sup = a->sup;
	t.fp = isFpOp(op) || a->fp;
	if (b) { t.sup = unionSet(t.sup, b->sup); t.fp |= b->fp; }
	if (c) { t.sup = unionSet(t.sup, c->sup); t.fp |= c->fp; }
	t.umin = 0; t.umax = mask64(w);
	u64 m = mask64(w);
	// concrete value and bounds
	switch (op) {
	case OP_ITE:
		t.cval = a->cval ? b->cval : c->cval;
		t.umin = std::min(b->umin, c->umin); t.umax = std::max(b->umax, c->umax);
		break;
	case OP_CONCAT:
		t.cval = (a->cval << b->w) | b->cval;
		if (w <= 64) { t.umin = (a->umin << b->w) + b->umin; t.umax = (a->umax << b->w) + b->umax; }
		break;
	case OP_EXTRACT:
		t.cval = (a->cval >> aux) & maskw(w);
		if (aux == 0 && a->w <= 64 && a->umax <= m) { t.umin = a->umin; t.umax = a->umax; }
		break;
	case OP_NOT: t.cval = !a->cval; t.umin = 0; t.umax = 1; break;
	case OP_ZEXT: t.cval = a->cval; if (a->w <= 64) { t.umin = a->umin; t.umax = a->umax; } break;
	case OP_SEXT:
		t.cval = a->w <= 64 ? (u128) (i128) sx((u64) a->cval, a->w) & maskw(w) : a->cval;
		if (a->umax <= mask64(a->w) >> 1) { t.umin = a->umin; t.umax = a->umax; }
		break;
	default:
		if (b) {
			t.cval = evalBin(op, a->w, (u64) a->cval, (u64) b->cval);
			switch (op) {
			case OP_ADD: if ((u128) a->umax + b->umax <= m) { t.umin = a->umin + b->umin; t.umax = a->umax + b->umax; }
				else if ((u128) a->umin + b->umin > m && (u128) a->umax + b->umax <= (u128) m + m + 1) { t.umin = (a->umin + b->umin) & m; t.umax = (a->umax + b->umax) & m; }
				break;
			case OP_SUB: if (a->umin >= b->umax) { t.umin = a->umin - b->umax; t.umax = a->umax - b->umin; } break;
			case OP_MUL: if ((u128) a->umax * b->umax <= m) { t.umin = a->umin * b->umin; t.umax = a->umax * b->umax; } break;
			case OP_UDIV: if (b->umin) { t.umin = a->umin / b->umax; t.umax = a->umax / b->umin; } break;
			case OP_UREM: if (b->umin) { t.umax = std::min(a->umax, b->umax - 1); } break;
			case OP_SDIV: if (b->umin && a->umax <= m >> 1 && b->umax <= m >> 1) { t.umin = a->umin / b->umax; t.umax = a->umax / b->umin; } break;
			case OP_SREM: if (b->umin && a->umax <= m >> 1 && b->umax <= m >> 1) { t.umax = std::min(a->umax, b->umax - 1); } break;
			case OP_AND: t.umax = std::min(a->umax, b->umax); break;
			case OP_OR: case OP_XOR: {
				u64 x = a->umax | b->umax;
				t.umax = x ? mask64(64 - __builtin_clzll(x)) : 0;
				if (op == OP_OR) t.umin = std::max(a->umin, b->umin);
				break;
			}
			case OP_SHL: if (isC(b) && b->val < w && ((u128) a->umax << (unsigned) b->val) <= m) { t.umin = a->umin << (unsigned) b->val; t.umax = a->umax << (unsigned) b->val; } break;
			case OP_LSHR: if (isC(b) && b->val < w) { t.umin = a->umin >> (unsigned) b->val; t.umax = a->umax >> (unsigned) b->val; } break;
			case OP_ASHR: if (isC(b) && b->val < w && a->umax <= m >> 1) { t.umin = a->umin >> (unsigned) b->val; t.umax = a->umax >> (unsigned) b->val; } break;
			default: if (isCmp(op)) { t.umin = 0; t.umax = 1; }
			}
		} else {
			t.cval = evalUn(op, a->w, w, (u64) a->cval);
		}
	}
	if (w > 64) { t.umin = 0; t.umax = ~0ull; }
	bounds(t);
	return intern(t);
}

// number of leaves if e is an ITE tree with constant leaves (bounded), else 0
static unsigned constLeaves (Expr* e, unsigned limit = 80)
{
	if (isC(e)) return 1;
	if (e->op != OP_ITE || limit == 0) return 0;
	unsigned a = constLeaves(e->k[1], limit - 1);
	if (!a || a >= limit) return 0;
	unsigned b = constLeaves(e->k[2], limit - a);
	return b ? a + b : 0;
}
static Expr* mapLeaves (Expr* e, std::function<Expr* (Expr*)> f)
{
	if (e->op == OP_ITE && constLeaves(e)) return mkIte(e->k[0], mapLeaves(e->k[1], f), mapLeaves(e->k[2], f));
	return f(e);
}

static Expr* tabBin (int op, unsigned ow, unsigned rw, Expr* a, Expr* b)
{
	unsigned var = a->op == OP_TAB ? a->aux : b->aux;
	u64 n = vars[var].n;
	u64 buf[SMALL];
	u64 ca = isC(a) ? (u64) a->val : 0, cb = isC(b) ? (u64) b->val : 0;
	Var& v = vars[var];
	for (u64 i = 0; i < n; ++i) {
		if (!inDom(v, i)) { buf[i] = 0; continue; }
		buf[i] = evalBin(op, ow, isC(a) ? ca : a->tab[i], isC(b) ? cb : b->tab[i]);
	}
	if (certify) {
		u64 raw[SMALL];
		bool same = true;
		for (u64 i = 0; i < n; ++i) raw[i] = inDom(v, i) ? buf[i] : evalBin(op, ow, isC(a) ? ca : a->tab[i], isC(b) ? cb : b->tab[i]);
		for (u64 i = 0; i < n; ++i) if (inDom(v, i) && buf[i] != buf[v.cur]) same = false;
		if (same) claimTab(var, raw, buf[v.cur]);
	}
	// values outside the domain are irrelevant on this path: fill with the value at the current input so that folding works
	for (u64 i = 0; i < n; ++i) if (!inDom(v, i)) buf[i] = buf[v.cur];
	return mkTab(var, rw, buf);
}
static Expr* tabUn (std::function<u64 (u64)> f, unsigned rw, Expr* a)
{
	unsigned var = a->aux;
	Var& v = vars[var];
	u64 buf[SMALL];
	for (u64 i = 0; i < v.n; ++i) buf[i] = inDom(v, i) ? f(a->tab[i]) : 0;
	for (u64 i = 0; i < v.n; ++i) if (!inDom(v, i)) buf[i] = buf[v.cur];
	return mkTab(var, rw, buf);
}

static Expr* mkNot (Expr* a)
{
	a = narrow(a);
	if (isC(a)) return mkConst(1, !a->val);
	if (a->op == OP_NOT) return a->k[0];
	if (a->op == OP_TAB) return tabUn([](u64 x) { return (u64) !x; }, 1, a);
	return node(OP_NOT, 1, a);
}

static Expr* knownBool (Expr* e)
{
	if (e->w != 1 || isC(e)) return e;
	if (e->op == OP_NOT) {
		auto i = known->find(e->k[0]);
		if (i != known->end()) return mkConst(1, !i->second);
		return e;
	}
	auto i = known->find(e);
	if (i != known->end()) return mkConst(1, i->second);
	return e;
}

static bool nonNeg (Expr* e) { return e->w <= 64 && e->umax <= (mask64(e->w) >> 1); }

static Expr* mkBin (int op, unsigned w, Expr* a, Expr* b)
{
	unsigned rw = isCmp(op) ? 1 : w;
	a = narrow(a); b = narrow(b);
	if (isC(a) && isC(b)) return mkConst(rw, evalBin(op, w, (u64) a->val, (u64) b->val));
	if ((a->op == OP_TAB && (isC(b) || (b->op == OP_TAB && b->aux == a->aux))) || (b->op == OP_TAB && isC(a))) return tabBin(op, w, rw, a, b);

	// canonical comparisons
	switch (op) {
	case OP_NE: return mkNot(mkBin(OP_EQ, w, a, b));
	case OP_UGT: return mkBin(OP_ULT, w, b, a);
	case OP_UGE: return mkNot(mkBin(OP_ULT, w, a, b));
	case OP_ULE: return mkNot(mkBin(OP_ULT, w, b, a));
	case OP_SGT: return mkBin(OP_SLT, w, b, a);
	case OP_SGE: return mkNot(mkBin(OP_SLT, w, a, b));
	case OP_SLE: return mkNot(mkBin(OP_SLT, w, b, a));
	case OP_UMIN: return mkIte(mkBin(OP_ULT, w, a, b), a, b);
	case OP_UMAX: return mkIte(mkBin(OP_ULT, w, a, b), b, a);
	case OP_SMIN: return mkIte(mkBin(OP_SLT, w, a, b), a, b);
	case OP_SMAX: return mkIte(mkBin(OP_SLT, w, a, b), b, a);
	case OP_USUBSAT: return mkIte(mkBin(OP_ULT, w, a, b), mkConst(w, 0), mkBin(OP_SUB, w, a, b));
	case OP_UADDSAT: return mkIte(mkBin(OP_ULT, w, mkBin(OP_ADD, w, a, b), a), mkConst(w, mask64(w)), mkBin(OP_ADD, w, a, b));
	case OP_FOGT: return mkBin(OP_FOLT, w, b, a);
	case OP_FOGE: return mkBin(OP_FOLE, w, b, a);
	case OP_FUGT: return mkNot(mkBin(OP_FOLE, w, a, b));
	case OP_FUGE: return mkNot(mkBin(OP_FOLT, w, a, b));
	case OP_FULT: return mkNot(mkBin(OP_FOLE, w, b, a));
	case OP_FULE: return mkNot(mkBin(OP_FOLT, w, b, a));
	case OP_FUNE: return mkNot(mkBin(OP_FOEQ, w, a, b));
	}

	// distribute over ITEs with constant leaves
	if (isC(b) && a->op == OP_ITE && constLeaves(a)) return mapLeaves(a, [&](Expr* x) { return mkBin(op, w, x, b); });
	if (isC(a) && b->op == OP_ITE && constLeaves(b)) return mapLeaves(b, [&](Expr* x) { return mkBin(op, w, a, x); });

	bool comm = op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR || op == OP_EQ;
	if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
	u64 m = mask64(w);

	switch (op) {
	case OP_ADD:
		if (isCV(b, 0)) return a;
		if (isC(b) && a->op == OP_ADD && isC(a->k[1])) return mkBin(OP_ADD, w, a->k[0], mkConst(w, a->k[1]->val + b->val));
		if (!isC(b) && a->op == OP_ADD && isC(a->k[1])) return mkBin(OP_ADD, w, mkBin(OP_ADD, w, a->k[0], b), a->k[1]);
		if (!isC(b) && b->op == OP_ADD && isC(b->k[1])) return mkBin(OP_ADD, w, mkBin(OP_ADD, w, b->k[0], a), b->k[1]);
		break;
	case OP_SUB:
		if (a == b) return mkConst(w, 0);
		if (isC(b)) return mkBin(OP_ADD, w, a, mkConst(w, (0 - (u64) b->val) & m));
		if (a->op == OP_ADD && a->k[0] == b) return a->k[1];
		if (a->op == OP_ADD && a->k[1] == b) return a->k[0];
		if (a->op == OP_ADD && isC(a->k[1])) return mkBin(OP_ADD, w, mkBin(OP_SUB, w, a->k[0], b), a->k[1]);
		break;
	case OP_MUL:
		if (isCV(b, 0)) return b;
		if (isCV(b, 1)) return a;
		if (isC(b) && a->op == OP_MUL && isC(a->k[1])) return mkBin(OP_MUL, w, a->k[0], mkConst(w, (u64) a->k[1]->val * (u64) b->val));
		break;
	case OP_UDIV: case OP_SDIV:
		if (op == OP_UDIV && w > 8) {
			u64 x = std::max(a->umax, b->umax);
			unsigned nw = x ? 64 - __builtin_clzll(x) : 1;
			if (nw < w && b->umin > 0) return mkUn(OP_ZEXT, w, mkBin(OP_UDIV, nw, mkExtract(a, 0, nw), mkExtract(b, 0, nw)));
		}
		if (isCV(b, 1)) return a;
		if (op == OP_SDIV && nonNeg(a) && nonNeg(b)) return mkBin(OP_UDIV, w, a, b);
		if (op == OP_UDIV && isC(b) && a->umax < (u64) b->val) return mkConst(w, 0);
		break;
	case OP_UREM: case OP_SREM:
		if (op == OP_UREM && w > 8) {
			u64 x = std::max(a->umax, b->umax);
			unsigned nw = x ? 64 - __builtin_clzll(x) : 1;
			if (nw < w && b->umin > 0) return mkUn(OP_ZEXT, w, mkBin(OP_UREM, nw, mkExtract(a, 0, nw), mkExtract(b, 0, nw)));
		}
		if (isCV(b, 1)) return mkConst(w, 0);
		if (op == OP_SREM && nonNeg(a) && nonNeg(b)) return mkBin(OP_UREM, w, a, b);
		if (op == OP_UREM && isC(b) && b->val && a->umax < (u64) b->val) return a;
		break;
	case OP_AND:
		if (a == b) return a;
		if (isCV(b, 0)) return b;
		if (isCV(b, m)) return a;
		if (w == 1 && (a->op == OP_NOT ? a->k[0] == b : b->op == OP_NOT && b->k[0] == a)) return mkConst(1, 0);
		if (isC(b)) {
			u64 c = b->val;
			if (((c + 1) & c) == 0 && a->umax <= c) return a;
			if (((c + 1) & c) == 0) return mkUn(OP_ZEXT, w, mkExtract(a, 0, 64 - __builtin_clzll(c)));
			if (a->op == OP_AND && isC(a->k[1])) return mkBin(OP_AND, w, a->k[0], mkConst(w, a->k[1]->val & b->val));
		}
		if (w == 1) { a = knownBool(a); b = knownBool(b); if (isC(a)) return a->val ? b : a; if (isC(b)) return b->val ? a : b; }
		break;
	case OP_OR:
		if (a == b) return a;
		if (isCV(b, 0)) return a;
		if (isCV(b, m)) return b;
		if (w == 1 && (a->op == OP_NOT ? a->k[0] == b : b->op == OP_NOT && b->k[0] == a)) return mkConst(1, 1);
		if (w == 1) { a = knownBool(a); b = knownBool(b); if (isC(a)) return a->val ? a : b; if (isC(b)) return b->val ? b : a; }
		break;
	case OP_XOR:
		if (a == b) return mkConst(w, 0);
		if (isCV(b, 0)) return a;
		if (w == 1 && isCV(b, 1)) return mkNot(a);
		break;
	case OP_SHL: case OP_LSHR: case OP_ASHR:
		if (isCV(b, 0)) return a;
		if (op == OP_ASHR && nonNeg(a)) return mkBin(OP_LSHR, w, a, b);
		if (isC(b) && b->val >= w) return op == OP_ASHR ? mkBin(op, w, a, mkConst(w, w - 1)) : mkConst(w, 0);
		if (op == OP_LSHR && isC(b)) return mkUn(OP_ZEXT, w, mkExtract(a, (u64) b->val, w - (u64) b->val));
		if (op == OP_SHL && isC(b)) {
			unsigned s = (u64) b->val;
			return mkConcat(mkExtract(a, 0, w - s), mkConst(s, 0));
		}
		break;
	case OP_EQ:
		if (a == b) return mkConst(1, 1);
		if (w <= 64 && (a->umax < b->umin || b->umax < a->umin || a->smax < b->smin || b->smax < a->smin)) return mkConst(1, 0);
		if (isC(b)) {
			u64 c = b->val;
			if (w == 1) return c ? a : mkNot(a);
			if (a->op == OP_ZEXT) return c <= mask64(a->k[0]->w) ? mkBin(OP_EQ, a->k[0]->w, a->k[0], mkConst(a->k[0]->w, c)) : mkConst(1, 0);
			if (a->op == OP_SEXT) { unsigned kw = a->k[0]->w; return ((u64) sx(c, kw) & m) == c ? mkBin(OP_EQ, kw, a->k[0], mkConst(kw, c & mask64(kw))) : mkConst(1, 0); }
			if (a->op == OP_ADD && isC(a->k[1])) return mkBin(OP_EQ, w, a->k[0], mkConst(w, (c - (u64) a->k[1]->val) & m));
			if (a->op == OP_SUB && c == 0) return mkBin(OP_EQ, w, a->k[0], a->k[1]);
			if (a->op == OP_XOR && c == 0) return mkBin(OP_EQ, w, a->k[0], a->k[1]);
			if (a->op == OP_CONCAT) {
				unsigned lw = a->k[1]->w;
				return mkBin(OP_AND, 1, mkBin(OP_EQ, a->k[0]->w, a->k[0], mkConst(a->k[0]->w, c >> lw)), mkBin(OP_EQ, lw, a->k[1], mkConst(lw, c & mask64(lw))));
			}
			if (a->op == OP_OR && c == 0) return mkBin(OP_AND, 1, mkBin(OP_EQ, w, a->k[0], b), mkBin(OP_EQ, w, a->k[1], b));
		} else {
			if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(OP_EQ, a->k[0]->w, a->k[0], b->k[0]);
			if (a->op == OP_SEXT && b->op == OP_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(OP_EQ, a->k[0]->w, a->k[0], b->k[0]);
			if (a->op == OP_CONCAT && b->op == OP_CONCAT && a->k[1]->w == b->k[1]->w)
				return mkBin(OP_AND, 1, mkBin(OP_EQ, a->k[0]->w, a->k[0], b->k[0]), mkBin(OP_EQ, a->k[1]->w, a->k[1], b->k[1]));
			if (a->op == OP_ADD && b->op == OP_ADD && a->k[1] == b->k[1]) return mkBin(OP_EQ, w, a->k[0], b->k[0]);
		}
		break;
	case OP_ULT:
		if (a == b) return mkConst(1, 0);
		if (a->umax < b->umin) return mkConst(1, 1);
		if (a->umin >= b->umax) return mkConst(1, 0);
		if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(OP_ULT, a->k[0]->w, a->k[0], b->k[0]);
		if (a->op == OP_ZEXT && isC(b)) return mkBin(OP_ULT, a->k[0]->w, a->k[0], mkConst(a->k[0]->w, b->val));	// (bounds checked above)
		if (b->op == OP_ZEXT && isC(a)) return mkBin(OP_ULT, b->k[0]->w, mkConst(b->k[0]->w, a->val), b->k[0]);
		break;
	case OP_SLT:
		if (a == b) return mkConst(1, 0);
		if (a->smax < b->smin) return mkConst(1, 1);
		if (a->smin >= b->smax) return mkConst(1, 0);
		if (nonNeg(a) && nonNeg(b)) return mkBin(OP_ULT, w, a, b);
		if (a->op == OP_SEXT && b->op == OP_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(OP_SLT, a->k[0]->w, a->k[0], b->k[0]);
		if (a->op == OP_SEXT && isC(b)) {
			unsigned kw = a->k[0]->w; i64 c = sx(b->val, w), lo = -(i64) (1ull << (kw - 1)), hi = (i64) (1ull << (kw - 1)) - 1;
			if (c > hi) return mkConst(1, 1);
			if (c <= lo) return mkConst(1, 0);
			return mkBin(OP_SLT, kw, a->k[0], mkConst(kw, (u64) c & mask64(kw)));
		}
		if (b->op == OP_SEXT && isC(a)) {
			unsigned kw = b->k[0]->w; i64 c = sx(a->val, w), lo = -(i64) (1ull << (kw - 1)), hi = (i64) (1ull << (kw - 1)) - 1;
			if (c < lo) return mkConst(1, 1);
			if (c >= hi) return mkConst(1, 0);
			return mkBin(OP_SLT, kw, mkConst(kw, (u64) c & mask64(kw)), b->k[0]);
		}
		if (isC(b) && b->val == 0) return mkBin(OP_EQ, 1, mkExtract(a, w - 1, 1), mkConst(1, 1));
		break;
	case OP_FOLT: case OP_FOLE: {
		double al, ah, bl, bh;
		if (fpBounds(a, al, ah) && fpBounds(b, bl, bh)) {
			if (op == OP_FOLT) { if (ah < bl) return mkConst(1, 1); if (al >= bh) return mkConst(1, 0); }
			else { if (ah <= bl) return mkConst(1, 1); if (al > bh) return mkConst(1, 0); }
		}
		break;
	}
	case OP_FORD: case OP_FUNO: {
		double al, ah, bl, bh;
		if (fpBounds(a, al, ah) && fpBounds(b, bl, bh)) return mkConst(1, op == OP_FORD);
		break;
	}
	case OP_UADDO: return mkBin(OP_ULT, w, mkBin(OP_ADD, w, a, b), a);
	case OP_USUBO: return mkBin(OP_ULT, w, a, b);
	case OP_UMULO: if ((u128) a->umax * b->umax <= m) return mkConst(1, 0); break;
	case OP_SADDO: if ((i128) a->smax + b->smax <= smaxOf(w) && (i128) a->smin + b->smin >= sminOf(w)) return mkConst(1, 0); break;
	case OP_SSUBO: if ((i128) a->smax - b->smin <= smaxOf(w) && (i128) a->smin - b->smax >= sminOf(w)) return mkConst(1, 0); break;
	case OP_SMULO: {
		i128 x = std::max(std::max((i128) a->smin * b->smin, (i128) a->smax * b->smax), std::max((i128) a->smin * b->smax, (i128) a->smax * b->smin));
		i128 y = std::min(std::min((i128) a->smin * b->smin, (i128) a->smax * b->smax), std::min((i128) a->smin * b->smax, (i128) a->smax * b->smin));
		if (x <= smaxOf(w) && y >= sminOf(w)) return mkConst(1, 0);
		break;
	}
	}
	return knownBool(node(op, rw, a, b));
}

static Expr* mkExtract (Expr* a, unsigned lo, unsigned w)
{
	a = narrow(a);
	if (lo == 0 && w == a->w) return a;
	if (isC(a)) return mkConst(w, a->val >> lo);
	switch (a->op) {
	case OP_TAB: return tabUn([&](u64 x) { return (x >> lo) & mask64(w); }, w, a);
	case OP_EXTRACT: return mkExtract(a->k[0], a->aux + lo, w);
	case OP_CONCAT: {
		unsigned lw = a->k[1]->w;
		if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
		if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
		return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
	}
	case OP_ZEXT: {
		unsigned kw = a->k[0]->w;
		if (lo >= kw) return mkConst(w, 0);
		if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
		return mkUn(OP_ZEXT, w, mkExtract(a->k[0], lo, kw - lo));
	}
	case OP_SEXT: {
		unsigned kw = a->k[0]->w;
		if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
		if (lo < kw) return mkUn(OP_SEXT, w, mkExtract(a->k[0], lo, kw - lo));
		break;
	}
	case OP_ITE:
		if (constLeaves(a)) return mapLeaves(a, [&](Expr* x) { return mkConst(w, x->val >> lo); });
		break;
	case OP_ADD: case OP_SUB: case OP_MUL: case OP_AND: case OP_OR: case OP_XOR:
		if (lo == 0) return mkBin(a->op, w, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
		if (a->op == OP_AND || a->op == OP_OR || a->op == OP_XOR) return mkBin(a->op, w, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
		break;
	}
	if (a->w <= 64 && lo > 0 && lo < 64 && (a->umax >> lo) == 0) return mkConst(w, 0);
	return node(OP_EXTRACT, w, a, nullptr, nullptr, lo);
}

static Expr* mkConcat (Expr* hi, Expr* lo)
{
	hi = narrow(hi); lo = narrow(lo);
	unsigned w = hi->w + lo->w;
	if (isC(hi) && isC(lo)) return mkConst(w, (hi->val << lo->w) | lo->val);
	if (isCV(hi, 0)) return mkUn(OP_ZEXT, w, lo);
	if (w <= 64) {
		if (hi->op == OP_TAB && isC(lo)) return tabUn([&](u64 x) { return (x << lo->w) | (u64) lo->val; }, w, hi);
		if (lo->op == OP_TAB && isC(hi)) return tabUn([&](u64 x) { return ((u64) hi->val << lo->w) | x; }, w, lo);
		if (lo->op == OP_TAB && hi->op == OP_TAB && lo->aux == hi->aux) {
			u64 buf[SMALL];
			for (u64 i = 0; i < vars[lo->aux].n; ++i) buf[i] = (hi->tab[i] << lo->w) | lo->tab[i];
			return mkTab(lo->aux, w, buf);
		}
	}
	if (hi->op == OP_EXTRACT && lo->op == OP_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return mkExtract(hi->k[0], lo->aux, w);
	if (hi->op == OP_CONCAT && hi->k[1]->op == OP_EXTRACT && lo->op == OP_EXTRACT && hi->k[1]->k[0] == lo->k[0] && hi->k[1]->aux == lo->aux + lo->w)
		return mkConcat(hi->k[0], mkExtract(lo->k[0], lo->aux, hi->k[1]->w + lo->w));
	return node(OP_CONCAT, w, hi, lo);
}

static Expr* mkUn (int op, unsigned tw, Expr* a)
{
	a = narrow(a);
	unsigned fw = a->w;
	if (op == OP_TRUNC) return mkExtract(a, 0, tw);
	if ((op == OP_ZEXT || op == OP_SEXT) && tw == fw) return a;
	if (isC(a)) {
		if (op == OP_ZEXT) return mkConst(tw, a->val);
		if (fw <= 64 && tw <= 64) return mkConst(tw, evalUn(op, fw, tw, (u64) a->val));
		if (op == OP_SEXT && fw <= 64) return mkConst(tw, (u128) (i128) sx((u64) a->val, fw));
	}
	if (a->op == OP_TAB && tw <= 64) return tabUn([&](u64 x) { return evalUn(op, fw, tw, x); }, tw, a);
	if (op == OP_ZEXT && a->op == OP_ZEXT) return mkUn(OP_ZEXT, tw, a->k[0]);
	if (op == OP_SEXT && nonNeg(a)) return mkUn(OP_ZEXT, tw, a);
	if (op == OP_SEXT && a->op == OP_SEXT) return mkUn(OP_SEXT, tw, a->k[0]);
	if (a->op == OP_ITE && constLeaves(a) && tw <= 64) return mapLeaves(a, [&](Expr* x) { return mkUn(op, tw, x); });
	if (op == OP_BSWAP) {
		Expr* r = mkExtract(a, 0, 8);
		for (unsigned i = 8; i < fw; i += 8) r = mkConcat(r, mkExtract(a, i, 8));
		return r;
	}
	if (op == OP_ABS) return mkIte(mkBin(OP_SLT, fw, a, mkConst(fw, 0)), mkBin(OP_SUB, fw, mkConst(fw, 0), a), a);
	if (op == OP_SITOFP && nonNeg(a)) op = OP_UITOFP;
	if (op == OP_UITOFP && a->op == OP_ZEXT) a = a->k[0];
	return node(op, tw, a);
}

static Expr* mkIte (Expr* c, Expr* a, Expr* b)
{
	c = knownBool(narrow(c));
	if (isC(c)) return c->val ? a : b;
	if (a == b) return a;
	a = narrow(a); b = narrow(b);
	if (a == b) return a;
	unsigned w = a->w;
	if (c->op == OP_TAB) {
		unsigned v = c->aux;
		if ((isC(a) || (a->op == OP_TAB && a->aux == v)) && (isC(b) || (b->op == OP_TAB && b->aux == v)) && w <= 64) {
			u64 buf[SMALL];
			for (u64 i = 0; i < vars[v].n; ++i) buf[i] = c->tab[i] ? (isC(a) ? (u64) a->val : a->tab[i]) : (isC(b) ? (u64) b->val : b->tab[i]);
			for (u64 i = 0; i < vars[v].n; ++i) if (!inDom(vars[v], i)) buf[i] = buf[vars[v].cur];
			return mkTab(v, w, buf);
		}
	}
	if (w == 1) {
		if (isCV(a, 1) && isCV(b, 0)) return c;
		if (isCV(a, 0) && isCV(b, 1)) return mkNot(c);
		if (isCV(a, 1)) return mkBin(OP_OR, 1, c, b);
		if (isCV(b, 0)) return mkBin(OP_AND, 1, c, a);
		if (isCV(a, 0)) return mkBin(OP_AND, 1, mkNot(c), b);
		if (isCV(b, 1)) return mkBin(OP_OR, 1, mkNot(c), a);
	}
	if (c->op == OP_NOT) return mkIte(c->k[0], b, a);
	if (a->op == OP_ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
	if (b->op == OP_ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
	return node(OP_ITE, w, c, a, b);
}

// ---------------------------------------------------------------------------------------------- options and shared state
struct Options
{
	int cas = 0, jobs = 8, tier = 0, pathCpu = 30, maxViol = 4;
	double budget = 60;
	long maxPaths = 1000000000L;
	unsigned seed = 1, qtimeout = 10000;
	int samples = 200;
	std::string out, replay, dump;
	bool verbose = false;
};
static Options opt;

struct Item { std::vector<u64> vals; uint32_t bound; u64 hash; };

// ---- child state
static bool inChild;
static int pipeFd = -1;
static Item item;
static uint32_t nDecisions;
static u64 pathHash;
static std::string lastSite;
static std::vector<Expr*> pc;		// constraints over more than one variable, or over large variables
static std::vector<std::pair<Expr*, std::string>> deferred;
static u64 digest = 14695981039346656037ull;
static double deadline;
static std::map<std::string, i64> hints;
static std::string* partial;	// description of inputs

struct Stats
{
	u64 arith, spurious;
	u64 certPaths, certClaims, certOpen;
	double certTime;
	u64 decisions, queries, sat, unsat, unknown, assertsTrivial, assertsTable, assertsSolver, assumes, stale, exprs;
	double solverTime;
};
static Stats st;

static double now () { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

enum Rec : uint8_t { R_ITEM = 1, R_VIOL, R_EVENT, R_COVER, R_STATS, R_DONE, R_NOTE, R_SITE, R_MEASURE };
static std::string outBuf;
static void flushOut ()
{
	size_t o = 0;
	while (o < outBuf.size()) {
		ssize_t n = write(pipeFd, outBuf.data() + o, outBuf.size() - o);
		if (n <= 0) { if (errno == EINTR) continue; break; }
		o += n;
	}
	outBuf.clear();
}
static void send (Rec r, std::string const& payload)
{
	uint32_t n = payload.size();
	outBuf += (char) r;
	outBuf.append((char*) &n, 4);
	outBuf += payload;
	if (outBuf.size() > 60000) flushOut();
}
static void event (const char* kind, std::string const& text)
{
	if (inChild) send(R_EVENT, std::string(kind) + ": " + text);
	else fprintf(stderr, "event %s: %s\n", kind, text.c_str());
}
[[noreturn]] static void dieInternal (const char* m)
{
	event("internal-error", m);
	if (inChild) flushOut();
	_exit(3);
}

static std::string packVals (std::vector<u64> const& v)
{
	std::string s;
	uint32_t n = v.size();
	s.append((char*) &n, 4);
	s.append((char*) v.data(), n * 8);
	return s;
}
static std::string assignmentText (std::vector<u64> const& vals)
{
	std::string s;
	for (size_t i = 0; i < vars.size(); ++i) {
		char b[64];
		snprintf(b, sizeof b, " %llu\n", (unsigned long long) (i < vals.size() ? vals[i] : vars[i].cur));
		s += vars[i].name + b;
	}
	return s;
}
static std::vector<u64> currentVals ()
{
	std::vector<u64> v;
	for (auto& x: vars) v.push_back(x.cur);
	return v;
}

static void sendStats ()
{
	st.decisions = nDecisions;
	st.exprs = nExprs;
	send(R_STATS, std::string((char*) &st, sizeof st));
}

[[noreturn]] static void finishPath (const char* how);
static void report (std::string const& msg, std::vector<u64> const& vals)
{
	send(R_VIOL, msg + "\n" + assignmentText(vals));
}

// ---------------------------------------------------------------------------------------------- Z3
static z3::context* zc;
static std::unordered_map<Expr*, z3::expr>* zcache;
static std::vector<z3::expr>* zvars;
static z3::expr lower (Expr* e);
u64 evalUnder (Expr* e, std::vector<u64> const& vals);

static z3::expr zconst (unsigned w, u128 v)
{
	if (w <= 64) return zc->bv_val((uint64_t) v, w);
	return z3::concat(zc->bv_val((uint64_t) (v >> 64), w - 64), zc->bv_val((uint64_t) v, 64));
}
static z3::expr zvar (unsigned i)
{
	while (zvars->size() <= i) {
		unsigned k = zvars->size();
		zvars->push_back(zc->bv_const(("v" + std::to_string(k)).c_str(), vars[k].w));
	}
	return (*zvars)[i];
}
static z3::expr domainOf (unsigned i)
{
	Var& v = vars[i];
	z3::expr x = zvar(i);
	if (!v.small) {
		if (v.n == 0 || (v.w < 64 && v.n > mask64(v.w))) return zc->bool_val(true);
		return z3::ule(x, zc->bv_val((uint64_t) (v.n - 1), v.w));
	}
	z3::expr_vector alts(*zc);
	u64 k = 0;
	while (k < v.n) {
		if (!inDom(v, k)) { ++k; continue; }
		u64 e = k;
		while (e + 1 < v.n && inDom(v, e + 1)) ++e;
		if (k == e) alts.push_back(x == zc->bv_val((uint64_t) k, v.w));
		else {
			z3::expr c = zc->bool_val(true);
			if (k > 0) c = z3::uge(x, zc->bv_val((uint64_t) k, v.w));
			if (e < mask64(v.w)) c = k > 0 ? (c && z3::ule(x, zc->bv_val((uint64_t) e, v.w))) : z3::ule(x, zc->bv_val((uint64_t) e, v.w));
			alts.push_back(c);
		}
		k = e + 1;
	}
	return z3::mk_or(alts);
}

static z3::sort fpSort (unsigned w) { return w == 64 ? zc->fpa_sort<64>() : zc->fpa_sort<32>(); }
static z3::expr toFp (Expr* e);
static z3::expr rneExpr () { return z3::expr(*zc, Z3_mk_fpa_rne(*zc)); }
static z3::expr wrap (Z3_ast a) { zc->check_error(); return z3::expr(*zc, a); }
static z3::expr b2bv (z3::expr c) { return z3::ite(c, zc->bv_val(1, 1), zc->bv_val(0, 1)); }
static z3::expr lowerBool (Expr* e);

static z3::expr lowerTab (Expr* e)
{
	Var& v = vars[e->aux];
	z3::expr x = zvar(e->aux);
	// segments over the domain: constant runs, or runs with constant difference to the variable
	struct Seg { u64 lo, hi; bool id; u64 val; };
	std::vector<Seg> segs;
	u64 m = mask64(e->w);
	bool canId = e->w >= 1;
	for (u64 i = 0; i < v.n; ++i) {
		if (!inDom(v, i)) continue;
		u64 t = e->tab[i], d = (t - i) & m;
		if (!segs.empty()) {
			Seg& s = segs.back();
			if (s.lo == s.hi) {
				if (s.val == t) { s.hi = i; continue; }
				if (canId && ((s.val - s.lo) & m) == d) { s.id = true; s.val = d; s.hi = i; continue; }
			} else if (s.id ? s.val == d : s.val == t) { s.hi = i; continue; }
		}
		segs.push_back({i, i, false, t});
	}
	z3::expr r = zc->bv_val(0, 1);
	// merge constant segments with equal value
	auto segVal = [&](Seg const& s) {
		if (!s.id) return zc->bv_val((uint64_t) s.val, e->w);
		z3::expr y = v.w == e->w ? x : v.w < e->w ? z3::zext(x, e->w - v.w) : x.extract(e->w - 1, 0);
		return s.val ? y + zc->bv_val((uint64_t) s.val, e->w) : y;
	};
	auto segCond = [&](Seg const& s) {
		if (s.lo == s.hi) return x == zc->bv_val((uint64_t) s.lo, v.w);
		z3::expr c = zc->bool_val(true);
		bool any = false;
		if (s.lo > 0) { c = z3::uge(x, zc->bv_val((uint64_t) s.lo, v.w)); any = true; }
		if (s.hi < mask64(v.w)) { auto d = z3::ule(x, zc->bv_val((uint64_t) s.hi, v.w)); c = any ? c && d : d; }
		return c;
	};
	std::map<std::pair<bool, u64>, std::vector<Seg>> groups;
	for (auto& s: segs) groups[{s.id, s.val}].push_back(s);
	bool first = true;
	// largest group last (as the default)
	std::vector<std::vector<Seg>*> order;
	for (auto& g: groups) order.push_back(&g.second);
	std::sort(order.begin(), order.end(), [](std::vector<Seg>* a, std::vector<Seg>* b) { return a->size() > b->size(); });
	for (auto g: order) {
		z3::expr val = segVal(g->front());
		if (first) { r = val; first = false; continue; }
		z3::expr_vector conds(*zc);
		for (auto& s: *g) conds.push_back(segCond(s));
		r = z3::ite(z3::mk_or(conds), val, r);
	}
	return r;
}

static z3::expr lower (Expr* e)
{
	auto it = zcache->find(e);
	if (it != zcache->end()) return it->second;
	z3::expr r(*zc);
	auto A = [&]() { return lower(e->k[0]); };
	auto B = [&]() { return lower(e->k[1]); };
	switch (e->op) {
	case OP_CONST: r = zconst(e->w, e->val); break;
	case OP_VAR: r = zvar(e->aux); break;
	case OP_TAB: r = lowerTab(e); break;
	case OP_ADD: r = A() + B(); break;
	case OP_SUB: r = A() - B(); break;
	case OP_MUL: r = A() * B(); break;
	case OP_UDIV: r = z3::udiv(A(), B()); break;
	case OP_SDIV: r = A() / B(); break;
	case OP_UREM: r = z3::urem(A(), B()); break;
	case OP_SREM: r = z3::srem(A(), B()); break;
	case OP_SHL: r = z3::shl(A(), B()); break;
	case OP_LSHR: r = z3::lshr(A(), B()); break;
	case OP_ASHR: r = z3::ashr(A(), B()); break;
	case OP_AND: if (e->w == 1) r = b2bv(lowerBool(e)); else r = A() & B(); break;
	case OP_OR: if (e->w == 1) r = b2bv(lowerBool(e)); else r = A() | B(); break;
	case OP_XOR: r = A() ^ B(); break;
	case OP_ITE: r = z3::ite(lowerBool(e->k[0]), lower(e->k[1]), lower(e->k[2])); break;
	case OP_CONCAT: r = z3::concat(A(), B()); break;
	case OP_EXTRACT: r = A().extract(e->aux + e->w - 1, e->aux); break;
	case OP_ZEXT: r = z3::zext(A(), e->w - e->k[0]->w); break;
	case OP_SEXT: r = z3::sext(A(), e->w - e->k[0]->w); break;
	case OP_CTPOP: case OP_CTLZ: case OP_CTTZ: dieInternal("bit counting of a multi-variable expression");
	case OP_FPTOSI: r = wrap(Z3_mk_fpa_to_sbv(*zc, wrap(Z3_mk_fpa_rtz(*zc)), toFp(e->k[0]), e->w)); break;
	case OP_FPTOUI: r = wrap(Z3_mk_fpa_to_ubv(*zc, wrap(Z3_mk_fpa_rtz(*zc)), toFp(e->k[0]), e->w)); break;
	default:
		if (isCmp(e->op) || e->op == OP_NOT) r = b2bv(lowerBool(e));
		else if (isFpOp(e->op)) r = wrap(Z3_mk_fpa_to_ieee_bv(*zc, toFp(e)));
		else dieInternal("lower");
	}
	zcache->insert({e, r});
	return r;
}
static std::unordered_map<Expr*, z3::expr>* zbcache;
static z3::expr lowerBool (Expr* e)
{
	auto it = zbcache->find(e);
	if (it != zbcache->end()) return it->second;
	z3::expr r(*zc);
	auto A = [&]() { return lower(e->k[0]); };
	auto B = [&]() { return lower(e->k[1]); };
	unsigned w = e->k[0] ? e->k[0]->w : 0;
	switch (e->op) {
	case OP_CONST: r = zc->bool_val(e->val != 0); break;
	case OP_TAB: {
		// a 1-bit table: the set of values for which it is 1
		Var& v = vars[e->aux];
		z3::expr x = zvar(e->aux);
		z3::expr_vector alts(*zc);
		u64 k = 0;
		while (k < v.n) {
			if (!inDom(v, k) || !e->tab[k]) { ++k; continue; }
			u64 q = k;
			while (q + 1 < v.n && (!inDom(v, q + 1) || e->tab[q + 1])) ++q;
			if (k == q) alts.push_back(x == zc->bv_val((uint64_t) k, v.w));
			else alts.push_back(z3::uge(x, zc->bv_val((uint64_t) k, v.w)) && z3::ule(x, zc->bv_val((uint64_t) q, v.w)));
			k = q + 1;
		}
		r = z3::mk_or(alts);
		break;
	}
	case OP_NOT: r = !lowerBool(e->k[0]); break;
	case OP_AND: r = lowerBool(e->k[0]) && lowerBool(e->k[1]); break;
	case OP_OR: r = lowerBool(e->k[0]) || lowerBool(e->k[1]); break;
	case OP_XOR: r = lowerBool(e->k[0]) != lowerBool(e->k[1]); break;
	case OP_ITE: r = z3::ite(lowerBool(e->k[0]), lowerBool(e->k[1]), lowerBool(e->k[2])); break;
	case OP_EQ: r = w == 1 ? lowerBool(e->k[0]) == lowerBool(e->k[1]) : A() == B(); break;
	case OP_ULT: r = z3::ult(A(), B()); break;
	case OP_SLT: r = A() < B(); break;
	case OP_UMULO: r = !wrap(Z3_mk_bvmul_no_overflow(*zc, A(), B(), false)); break;
	case OP_SMULO: r = !(wrap(Z3_mk_bvmul_no_overflow(*zc, A(), B(), true)) && wrap(Z3_mk_bvmul_no_underflow(*zc, A(), B()))); break;
	case OP_SADDO: r = !(wrap(Z3_mk_bvadd_no_overflow(*zc, A(), B(), true)) && wrap(Z3_mk_bvadd_no_underflow(*zc, A(), B()))); break;
	case OP_SSUBO: r = !(wrap(Z3_mk_bvsub_no_overflow(*zc, A(), B())) && wrap(Z3_mk_bvsub_no_underflow(*zc, A(), B(), true))); break;
	case OP_FOEQ: r = wrap(Z3_mk_fpa_eq(*zc, toFp(e->k[0]), toFp(e->k[1]))); break;
	case OP_FOLT: r = wrap(Z3_mk_fpa_lt(*zc, toFp(e->k[0]), toFp(e->k[1]))); break;
	case OP_FOLE: r = wrap(Z3_mk_fpa_leq(*zc, toFp(e->k[0]), toFp(e->k[1]))); break;
	case OP_FONE: { auto x = toFp(e->k[0]), y = toFp(e->k[1]); r = wrap(Z3_mk_fpa_lt(*zc, x, y)) || wrap(Z3_mk_fpa_gt(*zc, x, y)); break; }
	case OP_FUEQ: { auto x = toFp(e->k[0]), y = toFp(e->k[1]); r = !(wrap(Z3_mk_fpa_lt(*zc, x, y)) || wrap(Z3_mk_fpa_gt(*zc, x, y))); break; }
	case OP_FORD: { auto x = toFp(e->k[0]), y = toFp(e->k[1]); r = !(wrap(Z3_mk_fpa_is_nan(*zc, x)) || wrap(Z3_mk_fpa_is_nan(*zc, y))); break; }
	case OP_FUNO: { auto x = toFp(e->k[0]), y = toFp(e->k[1]); r = wrap(Z3_mk_fpa_is_nan(*zc, x)) || wrap(Z3_mk_fpa_is_nan(*zc, y)); break; }
	default: r = lower(e) == zc->bv_val(1, 1);
	}
	zbcache->insert({e, r});
	return r;
}
static std::unordered_map<Expr*, z3::expr>* zfcache;
static z3::expr toFp (Expr* e)
{
	auto it = zfcache->find(e);
	if (it != zfcache->end()) return it->second;
	z3::expr r(*zc);
	Z3_context c = *zc;
	auto A = [&]() { return toFp(e->k[0]); };
	auto B = [&]() { return toFp(e->k[1]); };
	switch (e->op) {
	case OP_FADD: r = wrap(Z3_mk_fpa_add(c, rneExpr(), A(), B())); break;
	case OP_FSUB: r = wrap(Z3_mk_fpa_sub(c, rneExpr(), A(), B())); break;
	case OP_FMUL: r = wrap(Z3_mk_fpa_mul(c, rneExpr(), A(), B())); break;
	case OP_FDIV: r = wrap(Z3_mk_fpa_div(c, rneExpr(), A(), B())); break;
	case OP_FMIN: r = wrap(Z3_mk_fpa_min(c, A(), B())); break;
	case OP_FMAX: r = wrap(Z3_mk_fpa_max(c, A(), B())); break;
	case OP_FNEG: r = wrap(Z3_mk_fpa_neg(c, A())); break;
	case OP_FABS: r = wrap(Z3_mk_fpa_abs(c, A())); break;
	case OP_RINT: r = wrap(Z3_mk_fpa_round_to_integral(c, rneExpr(), A())); break;
	case OP_FLOOR: r = wrap(Z3_mk_fpa_round_to_integral(c, wrap(Z3_mk_fpa_rtn(c)), A())); break;
	case OP_CEIL: r = wrap(Z3_mk_fpa_round_to_integral(c, wrap(Z3_mk_fpa_rtp(c)), A())); break;
	case OP_FTRUNC: r = wrap(Z3_mk_fpa_round_to_integral(c, wrap(Z3_mk_fpa_rtz(c)), A())); break;
	case OP_ROUND: r = wrap(Z3_mk_fpa_round_to_integral(c, wrap(Z3_mk_fpa_rna(c)), A())); break;
	case OP_SQRT: r = wrap(Z3_mk_fpa_sqrt(c, rneExpr(), A())); break;
	case OP_SITOFP: r = wrap(Z3_mk_fpa_to_fp_signed(c, rneExpr(), lower(e->k[0]), fpSort(e->w))); break;
	case OP_UITOFP: r = wrap(Z3_mk_fpa_to_fp_unsigned(c, rneExpr(), lower(e->k[0]), fpSort(e->w))); break;
	case OP_FPEXT: case OP_FPTRUNC: r = wrap(Z3_mk_fpa_to_fp_float(c, rneExpr(), A(), fpSort(e->w))); break;
	default: r = wrap(Z3_mk_fpa_to_fp_bv(c, lower(e), fpSort(e->w)));
	}
	zfcache->insert({e, r});
	return r;
}

static void addVars (const VarSet* s, std::set<unsigned>& out)
{
	for (size_t i = 0; i < s->bits.size(); ++i) {
		u64 b = s->bits[i];
		while (b) { out.insert(i * 64 + __builtin_ctzll(b)); b &= b - 1; }
	}
}

// ---------------------------------------------------------------------------------------------- arithmetic lowering
// Integers and reals in place of bit-vectors and IEEE numbers.  Integer operations are translated only where the operands' bounds
// exclude wrapping, or with the wrap spelt out.  A rounded floating-point operation becomes a real within half an ulp of the
// exact result (of the largest magnitude its bounds allow), so "unsat" is conclusive; a model is checked by evaluation.
struct NotArith {};
struct Arith
{
	std::unordered_map<Expr*, z3::expr> u, s, r, b;
	std::unordered_map<Expr*, bool> integral;
	std::map<unsigned, z3::expr> iv;
	std::vector<z3::expr> side;
	int fresh = 0, depth = 0;
	z3::context& c;
	Arith () : c(*zc) {}

	z3::expr num (i128 v)
	{
		bool neg = v < 0;
		u128 m = neg ? (u128) 0 - (u128) v : (u128) v;
		char t[48]; int k = 47; t[k] = 0;
		do { t[--k] = '0' + (int) (m % 10); m /= 10; } while (m);
		if (neg) t[--k] = '-';
		return c.int_val(t + k);
	}
	z3::expr real (double d)
	{
		// exact
		int e; double f = frexp(d, &e);
		i64 m = (i64) ldexp(f, 53);
		e -= 53;
		while (m && !(m & 1)) { m /= 2; ++e; }
		std::string n = std::to_string((long long) m);
		z3::expr x = c.real_val(n.c_str());
		z3::expr two = c.real_val(1);
		if (e > 200 || e < -200) throw NotArith();
		auto p2 = [&](int k) {
			z3::expr p = c.real_val("1");
			while (k > 0) { int s = std::min(k, 60); p = p * c.real_val(std::to_string((unsigned long long) 1 << s).c_str()); k -= s; }
			return p.simplify();
		};
		return e >= 0 ? (x * p2(e)).simplify() : (x / p2(-e)).simplify();
	}
	z3::expr var (unsigned i)
	{
		auto f = iv.find(i);
		if (f != iv.end()) return f->second;
		z3::expr x = c.int_const(("i" + std::to_string(i)).c_str());
		iv.insert({i, x});
		Var& v = vars[i];
		if (!v.small) {
			if (v.n == 0) { side.push_back(x >= 0 && x <= num((i128) mask64(v.w))); }
			else side.push_back(x >= 0 && x <= num((i128) v.n - 1));
		} else {
			z3::expr_vector alts(c);
			u64 k = 0;
			while (k < v.n) {
				if (!inDom(v, k)) { ++k; continue; }
				u64 e = k;
				while (e + 1 < v.n && inDom(v, e + 1)) ++e;
				alts.push_back(k == e ? x == num(k) : x >= num(k) && x <= num(e));
				k = e + 1;
			}
			side.push_back(z3::mk_or(alts));
		}
		return x;
	}
	// table as an integer (or, through conv, a real) function of its variable
	z3::expr table (Expr* e, bool sgn)
	{
		Var& v = vars[e->aux];
		z3::expr x = var(e->aux);
		struct Seg { u64 lo, hi; i128 mul, add; };
		std::vector<Seg> segs;
		auto val = [&](u64 i) -> i128 { return sgn ? (i128) sx(e->tab[i], e->w) : (i128) e->tab[i]; };
		for (u64 i = 0; i < v.n; ++i) {
			if (!inDom(v, i)) continue;
			i128 t = val(i);
			if (!segs.empty()) {
				Seg& g = segs.back();
				if (g.lo == g.hi && i == g.hi + 1) { g.mul = t - val(g.lo); g.add = t - g.mul * (i128) i; g.hi = i; continue; }
				if (g.lo != g.hi && g.mul * (i128) i + g.add == t) { g.hi = i; continue; }
			}
			segs.push_back({i, i, 0, t});
		}
		z3::expr out = c.int_val(0);
		for (size_t k = 0; k < segs.size(); ++k) {
			Seg& g = segs[k];
			z3::expr y = g.mul == 0 ? num(g.add) : num(g.mul) * x + num(g.add);
			out = k == 0 ? y : z3::ite(x >= num(g.lo), y, out);
		}
		return out;
	}
	z3::expr U (Expr* e)
	{
		auto f = u.find(e);
		if (f != u.end()) return f->second;
		z3::expr x = U1(e);
		u.insert({e, x});
		return x;
	}
	z3::expr S (Expr* e)
	{
		auto f = s.find(e);
		if (f != s.end()) return f->second;
		z3::expr x = S1(e);
		s.insert({e, x});
		return x;
	}
	z3::expr pow2 (unsigned k) { return num((i128) 1 << k); }
	z3::expr U1 (Expr* e)
	{
		if (e->w > 64 || ++depth > 20000) throw NotArith();
		if (isC(e)) return num((i128) (u64) e->val);
		if (e->w == 1 && e->op != OP_EXTRACT && e->op != OP_TAB) return z3::ite(B(e), c.int_val(1), c.int_val(0));
		u128 m = mask64(e->w);
		Expr *a = e->k[0], *b = e->k[1];
		switch (e->op) {
		case OP_VAR: return var(e->aux);
		case OP_TAB: return table(e, false);
		case OP_ADD:
			if ((u128) a->umax + b->umax <= m) return U(a) + U(b);
			break;
		case OP_SUB:
			if (a->umin >= b->umax) return U(a) - U(b);
			break;
		case OP_MUL:
			if ((u128) a->umax * b->umax <= m) return U(a) * U(b);
			if (!isC(a) && !isC(b) && !(e->smin >= 0 && a->smin >= 0 && b->smin >= 0)) throw NotArith();
			break;
		case OP_UDIV: if (isC(b) && b->val) return U(a) / U(b); break;
		case OP_UREM: if (isC(b) && b->val) return z3::mod(U(a), U(b)); break;
		case OP_ZEXT: return U(a);
		case OP_EXTRACT: {
			if (a->w > 64) throw NotArith();
			if (e->aux == 0 && a->umax <= m) return U(a);
			z3::expr x = e->aux ? U(a) / pow2(e->aux) : U(a);
			if (e->aux + e->w < a->w) x = z3::mod(x, pow2(e->w));
			return x;
		}
		case OP_CONCAT: return U(a) * pow2(b->w) + U(b);
		case OP_ITE: return z3::ite(B(a), U(b), U(e->k[2]));
		case OP_FPTOUI: {
			double lo, hi;
			if (!fpBounds(a, lo, hi) || lo < 0 || hi > (double) (e->w == 64 ? mask64(63) : mask64(e->w))) throw NotArith();
			return truncInt(a);
		}
		}
		if (e->op == OP_SUB) {
			// wrap spelt out
			z3::expr d = U(a) - U(b);
			return z3::ite(d >= 0, d, d + pow2(e->w));
		}
		if (e->op == OP_ADD) {
			z3::expr d = U(a) + U(b);
			return z3::ite(d < pow2(e->w), d, d - pow2(e->w));
		}
		if (e->smin > sminOf(e->w) || e->smax < smaxOf(e->w) || e->op == OP_SEXT || e->op == OP_SDIV || e->op == OP_SREM || e->op == OP_FPTOSI) {
			z3::expr x = S(e);
			if (e->smin >= 0) return x;
			return z3::ite(x >= 0, x, x + pow2(e->w));
		}
		if (e->op == OP_MUL && (isC(a) || isC(b))) return z3::mod(U(a) * U(b), pow2(e->w));
		throw NotArith();
	}
	z3::expr tdiv (z3::expr x, Expr* xe, i64 d)
	{
		if (xe->smin >= 0) return x / num(d);
		return z3::ite(x >= 0, x / num(d), -((-x) / num(d)));
	}
	z3::expr S1 (Expr* e)
	{
		if (e->w > 64) throw NotArith();
		if (isC(e)) return num(sx((u64) e->val, e->w));
		Expr *a = e->k[0], *b = e->k[1];
		i128 lo = sminOf(e->w), hi = smaxOf(e->w);
		if (e->op == OP_TAB) return table(e, true);
		switch (e->op) {
		case OP_ADD: if ((i128) a->smin + b->smin >= lo && (i128) a->smax + b->smax <= hi) return S(a) + S(b); break;
		case OP_SUB: if ((i128) a->smin - b->smax >= lo && (i128) a->smax - b->smin <= hi) return S(a) - S(b); break;
		case OP_MUL: {
			i128 x = std::max(std::max((i128) a->smin * b->smin, (i128) a->smax * b->smax), std::max((i128) a->smin * b->smax, (i128) a->smax * b->smin));
			i128 y = std::min(std::min((i128) a->smin * b->smin, (i128) a->smax * b->smax), std::min((i128) a->smin * b->smax, (i128) a->smax * b->smin));
			if (y >= lo && x <= hi) return S(a) * S(b);
			if (!isC(a) && !isC(b)) throw NotArith();
			break;
		}
		case OP_SDIV: if (isC(b) && b->smin > 0) return tdiv(S(a), a, b->smin); throw NotArith();
		case OP_SREM: if (isC(b) && b->smin > 0) return S(a) - num(b->smin) * tdiv(S(a), a, b->smin); throw NotArith();
		case OP_ASHR: if (isC(b) && b->val < 63) return S(a) / pow2((unsigned) b->val); throw NotArith();
		case OP_SEXT: return S(a);
		case OP_EXTRACT: if (e->aux == 0 && a->w <= 64 && a->smin >= lo && a->smax <= hi) return S(a); break;
		case OP_CONCAT:
			if (isC(b) && b->val == 0 && a->op == OP_EXTRACT && a->aux == 0 && a->k[0]->w == e->w && ((i128) a->k[0]->smin << b->w) >= lo && ((i128) a->k[0]->smax << b->w) <= hi) return S(a->k[0]) * pow2(b->w);
			break;
		case OP_ITE: return z3::ite(B(a), S(b), S(e->k[2]));
		case OP_FPTOSI: {
			double x, y;
			if (!fpBounds(a, x, y) || trunc(x) < (double) lo || trunc(y) > (double) (e->w == 64 ? (i64) 9e18 : (i64) hi)) throw NotArith();
			return truncInt(a);
		}
		case OP_SHL: case OP_LSHR: case OP_AND: case OP_OR: case OP_XOR: throw NotArith();
		}
		if (e->umax <= (u64) hi) return U(e);
		if (e->op == OP_ZEXT || e->op == OP_VAR || e->op == OP_EXTRACT || e->op == OP_CONCAT || e->op == OP_UDIV || e->op == OP_UREM) {
			z3::expr x = U(e);
			return z3::ite(x <= num(hi), x, x - pow2(e->w));
		}
		if (e->op == OP_ADD || e->op == OP_SUB) {
			z3::expr x = e->op == OP_ADD ? S(a) + S(b) : S(a) - S(b);
			return z3::ite(x > num(hi), x - pow2(e->w), z3::ite(x < num(lo), x + pow2(e->w), x));
		}
		if (e->op == OP_MUL && (isC(a) || isC(b))) {
			z3::expr x = z3::mod(S(a) * S(b), pow2(e->w));
			return z3::ite(x > num(hi), x - pow2(e->w), x);
		}
		throw NotArith();
	}
	z3::expr freshInt () { return c.int_const(("k" + std::to_string(fresh++)).c_str()); }
	z3::expr freshReal () { return c.real_const(("e" + std::to_string(fresh++)).c_str()); }
	z3::expr toReal (z3::expr x) { return z3::to_real(x); }

	z3::expr truncInt (Expr* a)
	{
		z3::expr x = R(a);
		double lo, hi;
		fpBounds(a, lo, hi);
		z3::expr k = freshInt(), kr = toReal(k);
		if (lo >= 0) side.push_back(kr <= x && x < kr + 1);
		else side.push_back(z3::ite(x >= 0, kr <= x && x < kr + 1, kr - 1 < x && x <= kr));
		return k;
	}
	bool isInt (Expr* e)
	{
		if (isC(e) || e->op == OP_TAB) {
			auto whole = [&](u64 v) { double d = e->w == 64 ? asD(v) : (double) asF(v); return d == rint(d); };
			if (isC(e)) return whole((u64) e->val);
			Var& v = vars[e->aux];
			for (u64 i = 0; i < v.n; ++i) if (inDom(v, i) && !whole(e->tab[i])) return false;
			return true;
		}
		auto f = integral.find(e);
		if (f != integral.end()) return f->second;
		bool r = false;
		switch (e->op) {
		case OP_SITOFP: case OP_UITOFP: case OP_RINT: case OP_FLOOR: case OP_CEIL: case OP_FTRUNC: case OP_ROUND: r = true; break;
		case OP_FADD: case OP_FSUB: case OP_FMUL: r = isInt(e->k[0]) && isInt(e->k[1]); break;
		case OP_FPEXT: case OP_FNEG: case OP_FABS: case OP_FPTRUNC: r = isInt(e->k[0]); break;
		case OP_ITE: r = isInt(e->k[1]) && isInt(e->k[2]); break;
		}
		integral[e] = r;
		return r;
	}
	// value within half an ulp of the exact result x of e
	z3::expr rounded (Expr* e, z3::expr x, bool exactInts)
	{
		double lo, hi;
		if (!fpBounds(e, lo, hi)) throw NotArith();
		double mx = std::max(fabs(lo), fabs(hi));
		double lim = e->w == 64 ? 9007199254740992.0 : 16777216.0;
		if (exactInts && mx <= lim) return x;
		if (mx == 0) return c.real_val(0);
		// ulp at the largest magnitude
		int ex; frexp(mx, &ex);
		double err = std::max(ldexp(1.0, ex - (e->w == 64 ? 54 : 25)), 1e-40);
		z3::expr y = freshReal(), d = real(err);
		side.push_back(y - x <= d && x - y <= d && y >= real(lo) && y <= real(hi));
		return y;
	}
	z3::expr R (Expr* e)
	{
		auto f = r.find(e);
		if (f != r.end()) return f->second;
		z3::expr x = R1(e);
		r.insert({e, x});
		return x;
	}
	z3::expr R1 (Expr* e)
	{
		double lo, hi;
		if (!fpBounds(e, lo, hi)) throw NotArith();
		if (isC(e)) return real(lo);
		Expr *a = e->k[0], *b = e->k[1];
		switch (e->op) {
		case OP_TAB: {
			Var& v = vars[e->aux];
			z3::expr x = var(e->aux);
			z3::expr out = c.real_val(0);
			bool first = true;
			u64 last = 0;
			if (isInt(e) && std::max(fabs(lo), fabs(hi)) < 9e15) {
				// affine segments
				struct Seg { u64 lo, hi; i64 mul, add; };
				std::vector<Seg> segs;
				for (u64 i = 0; i < v.n; ++i) {
					if (!inDom(v, i)) continue;
					i64 t = (i64) (e->w == 64 ? asD(e->tab[i]) : asF(e->tab[i]));
					if (!segs.empty()) {
						Seg& g = segs.back();
						if (g.lo == g.hi && i == g.hi + 1) { i64 p = g.add; g.mul = t - p; g.add = t - g.mul * (i64) i; g.hi = i; continue; }
						if (g.lo != g.hi && g.mul * (i64) i + g.add == t) { g.hi = i; continue; }
					}
					segs.push_back({i, i, 0, t});
				}
				z3::expr o = c.int_val(0);
				for (size_t k = 0; k < segs.size(); ++k) {
					Seg& g = segs[k];
					z3::expr y = g.mul == 0 ? num(g.add) : num(g.mul) * x + num(g.add);
					o = k == 0 ? y : z3::ite(x >= num(g.lo), y, o);
				}
				return toReal(o);
			}
			for (u64 i = 0; i < v.n; ++i) if (inDom(v, i)) {
				if (!first && e->tab[i] == e->tab[last]) continue;
				z3::expr y = real(e->w == 64 ? asD(e->tab[i]) : asF(e->tab[i]));
				out = first ? y : z3::ite(x >= num(i), y, out);
				first = false; last = i;
			}
			return out;
		}
		case OP_SITOFP: return rounded(e, toReal(S(a)), true);
		case OP_UITOFP: return rounded(e, toReal(U(a)), true);
		case OP_FADD: return rounded(e, R(a) + R(b), isInt(a) && isInt(b));
		case OP_FSUB: return rounded(e, R(a) - R(b), isInt(a) && isInt(b));
		case OP_FMUL:
			if (!isC(a) && !isC(b)) throw NotArith();
			return rounded(e, R(a) * R(b), isInt(a) && isInt(b));
		case OP_FDIV:
			if (!isC(b)) throw NotArith();
			return rounded(e, R(a) / R(b), false);
		case OP_FNEG: return -R(a);
		case OP_FABS: { z3::expr x = R(a); return z3::ite(x >= 0, x, -x); }
		case OP_FPEXT: return R(a);
		case OP_FPTRUNC: return rounded(e, R(a), isInt(a));
		case OP_ITE: return z3::ite(B(a), R(b), R(e->k[2]));
		case OP_FMIN: { z3::expr x = R(a), y = R(b); return z3::ite(x <= y, x, y); }
		case OP_FMAX: { z3::expr x = R(a), y = R(b); return z3::ite(x >= y, x, y); }
		case OP_RINT: case OP_ROUND: {
			z3::expr x = R(a), k = freshInt(), kr = toReal(k);
			side.push_back(kr * 2 <= x * 2 + 1 && x * 2 - 1 <= kr * 2);
			return kr;
		}
		case OP_FLOOR: { z3::expr x = R(a), k = freshInt(), kr = toReal(k); side.push_back(kr <= x && x < kr + 1); return kr; }
		case OP_CEIL: { z3::expr x = R(a), k = freshInt(), kr = toReal(k); side.push_back(kr - 1 < x && x <= kr); return kr; }
		case OP_FTRUNC: return toReal(truncInt(a));
		}
		throw NotArith();
	}
	z3::expr B (Expr* e)
	{
		auto f = b.find(e);
		if (f != b.end()) return f->second;
		z3::expr x = B1(e);
		b.insert({e, x});
		return x;
	}
	z3::expr B1 (Expr* e)
	{
		Expr *a = e->k[0], *d = e->k[1];
		switch (e->op) {
		case OP_CONST: return c.bool_val(e->val != 0);
		case OP_TAB: return table(e, false) == 1;
		case OP_NOT: return !B(a);
		case OP_AND: return B(a) && B(d);
		case OP_OR: return B(a) || B(d);
		case OP_XOR: return B(a) != B(d);
		case OP_ITE: return z3::ite(B(a), B(d), B(e->k[2]));
		case OP_EQ:
			if (a->w == 1) return B(a) == B(d);
			if (isFpOp(a->op) && a->op != OP_FPTOSI && a->op != OP_FPTOUI) throw NotArith();
			if (a->umax <= (u64) smaxOf(a->w) && d->umax <= (u64) smaxOf(a->w)) return U(a) == U(d);
			return S(a) == S(d);
		case OP_ULT: return U(a) < U(d);
		case OP_SLT: return S(a) < S(d);
		case OP_FOEQ: return R(a) == R(d);
		case OP_FOLT: return R(a) < R(d);
		case OP_FOLE: return R(a) <= R(d);
		case OP_FONE: return R(a) != R(d);
		case OP_FUEQ: return R(a) == R(d);
		case OP_EXTRACT: case OP_VAR: return U(e) == 1;
		}
		throw NotArith();
	}
};
static bool heavy (Expr* e, std::unordered_set<Expr*>& seen)
{
	if (!e || !seen.insert(e).second) return false;
	switch (e->op) {
	case OP_MUL: case OP_UDIV: case OP_UREM: case OP_SDIV: case OP_SREM: return true;
	case OP_CONST: case OP_TAB: case OP_VAR: return false;
	}
	if (isFpOp(e->op)) return true;
	return heavy(e->k[0], seen) || heavy(e->k[1], seen) || heavy(e->k[2], seen);
}

// 1 sat (vals filled in), 0 unsat, -1 unknown
static int solve (std::vector<Expr*> const& extra, std::vector<u64>& vals)
{
	double t0 = now();
	++st.queries;
	const VarSet* sup = emptySet;
	for (auto e: extra) sup = unionSet(sup, e->sup);
	// slice
	std::vector<char> used(pc.size());
	bool changed = true;
	while (changed) {
		changed = false;
		for (size_t i = 0; i < pc.size(); ++i) {
			if (used[i] || !intersects(pc[i]->sup, sup)) continue;
			used[i] = 1;
			sup = unionSet(sup, pc[i]->sup);
			changed = true;
		}
	}
	int result = -1;
	std::vector<Expr*> all;
	for (size_t i = 0; i < pc.size(); ++i) if (used[i]) all.push_back(pc[i]);
	for (auto e: extra) all.push_back(e);
	bool fp = false, hv = false;
	{
		std::unordered_set<Expr*> seen;
		for (auto e: all) { fp |= e->fp; hv = hv || heavy(e, seen); }
	}
	std::set<unsigned> vs;
	addVars(sup, vs);
	struct itimerval off, old; memset(&off, 0, sizeof off);
	setitimer(ITIMER_VIRTUAL, &off, &old);
	auto dumpTo = [&](z3::solver& s, const char* kind) {
		if (opt.dump.empty()) return;
		static int k = 0;
		std::ofstream f(opt.dump + "." + std::to_string(getpid()) + "." + std::to_string(k++) + "." + kind + ".smt2");
		f << s.to_smt2();
	};
	if (hv) try {
		Arith A;
		std::vector<z3::expr> fs;
		for (auto e: all) fs.push_back(A.B(e));
		for (auto v: vs) A.var(v);
		z3::solver s(*zc);
		z3::params p(*zc);
		p.set("timeout", opt.qtimeout);
		s.set(p);
		for (auto& x: A.side) s.add(x);
		for (auto& x: fs) s.add(x);
		dumpTo(s, "arith");
		auto r = s.check();
		++st.arith;
		if (r == z3::unsat) result = 0;
		else if (r == z3::sat) {
			vals = currentVals();
			z3::model m = s.get_model();
			for (auto v: vs) {
				z3::expr x = m.eval(A.var(v), false);
				if (x.is_numeral()) { std::string d = x.get_decimal_string(0); vals[v] = strtoull(d.c_str(), nullptr, 10); }
			}
			bool good = true;
			for (auto e: all) if (!evalUnder(e, vals)) good = false;
			if (good) result = 1; else ++st.spurious;
		}
	} catch (NotArith&) {
	} catch (z3::exception& e) {
		event("z3", e.msg());
	}
	if (result < 0) try {
		z3::solver s = fp ? z3::solver(*zc) : z3::solver(*zc, "QF_BV");
		z3::params p(*zc);
		p.set("timeout", opt.qtimeout);
		s.set(p);
		for (auto v: vs) s.add(domainOf(v));
		for (auto e: all) s.add(lowerBool(e));
		dumpTo(s, fp ? "fp" : "bv");
		auto r = s.check();
		if (r == z3::unsat) result = 0;
		else if (r == z3::sat) {
			result = 1;
			vals = currentVals();
			z3::model m = s.get_model();
			for (auto v: vs) {
				z3::expr x = m.eval(zvar(v), false);
				if (x.is_numeral()) vals[v] = x.get_numeral_uint64();
			}
			for (auto e: all) if (!evalUnder(e, vals)) { event("model-mismatch", "a solver model does not evaluate to true"); result = -1; break; }
		}
	} catch (z3::exception& e) {
		event("z3", e.msg());
		result = -1;
	}
	setitimer(ITIMER_VIRTUAL, &old, nullptr);
	st.solverTime += now() - t0;
	if (result == 1) ++st.sat; else if (result == 0) ++st.unsat; else { ++st.unknown; event("solver-unknown", "query timed out or unknown"); }
	return result;
}

// ---------------------------------------------------------------------------------------------- path constraint
static void addConstraint (Expr* c)
{
	c = narrow(c);
	if (isC(c)) return;
	if (c->op == OP_AND && c->w == 1) { addConstraint(c->k[0]); addConstraint(c->k[1]); (*known)[c] = true; return; }
	if (c->op == OP_NOT && c->k[0]->op == OP_OR) { addConstraint(mkNot(c->k[0]->k[0])); addConstraint(mkNot(c->k[0]->k[1])); (*known)[c->k[0]] = false; return; }
	if (c->op == OP_TAB) {
		Var& v = vars[c->aux];
		for (u64 i = 0; i < v.n; ++i) if (!c->tab[i]) v.dom.b[i >> 6] &= ~(1ull << (i & 63));
		return;
	}
	if (c->op == OP_NOT) (*known)[c->k[0]] = false; else (*known)[c] = true;
	pc.push_back(c);
	std::set<unsigned> vs;
	addVars(c->sup, vs);
	if (vs.size() > 1) for (auto v: vs) vars[v].entangled = true;
	else for (auto v: vs) if (vars[v].small) vars[v].entangled = true;	// (small but not folded)
}

static void pushItem (std::vector<u64> const& vals, u64 decision)
{
	std::string s;
	uint32_t b = nDecisions + 1;
	s.append((char*) &b, 4);
	u64 h = mix(pathHash, decision);
	s.append((char*) &h, 8);
	s += packVals(vals);
	send(R_ITEM, s);
}
static void decide (u64 decision)
{
	pathHash = mix(pathHash, decision);
	++nDecisions;
	if (nDecisions == item.bound && pathHash != item.hash) {
		event("divergence", "prefix not reproduced: decision " + std::to_string(decision) + " last site " + lastSite);
		finishPath("diverged");
	}
}
// explore the alternative `c` (a feasible-looking condition) at this decision point
static void tryAlternative (Expr* c, u64 decision)
{
	c = narrow(c);
	if (isCV(c, 0)) return;
	std::vector<u64> vals;
	if (c->op == OP_TAB && !vars[c->aux].entangled) {
		Var& v = vars[c->aux];
		for (u64 i = 0; i < v.n; ++i) if (inDom(v, i) && c->tab[i]) {
			vals = currentVals();
			vals[c->aux] = i;
			pushItem(vals, decision);
			return;
		}
		return;
	}
	if (solve({c}, vals) == 1) pushItem(vals, decision);
}

static std::unordered_set<std::string>* sitesSeen;
static void siteUse (const char* site)
{
	lastSite = site;
	if (sitesSeen->insert(site).second) send(R_SITE, site);
}

// the negation, not simplified by what is known
static Expr* mkNotRaw (Expr* a)
{
	if (!certify) return a;
	if (a->op == OP_CONST) return mkConst(1, !a->val);
	if (a->op == OP_NOT) return a->k[0];
	if (a->op == OP_TAB) {
		u64 buf[SMALL];
		Var& v = vars[a->aux];
		for (u64 i = 0; i < v.n; ++i) buf[i] = !a->tab[i];
		Expr t = *a;
		t.tab = buf; t.cval = !a->cval;
		return intern(t);
	}
	return node(OP_NOT, 1, a);
}
static void branchOn (Expr* c, bool taken, const char* site)
{
	siteUse(site);
	Expr* met = c;
	c = knownBool(narrow(c));
	if (isC(c)) { if (certify && met->op != OP_TAB) claim(taken ? met : mkNotRaw(met)); return; }
	if (nDecisions >= item.bound) tryAlternative(taken ? mkNot(c) : c, !taken);
	decide(taken);
	::taken(taken ? c : mkNotRaw(c));
	addConstraint(taken ? c : mkNot(c));
}

static void concretizeOn (Expr* e, const char* what)
{
	e = narrow(e);
	if (isC(e)) return;
	siteUse(what);
	u64 cur = (u64) e->cval;
	if (e->w > 64) { event("lost", "wide concretisation"); return; }
	if (certify && e->op == OP_TAB) {
		u64 buf[SMALL];
		Var& v = vars[e->aux];
		for (u64 i = 0; i < v.n; ++i) buf[i] = e->tab[i] == cur;
		Expr t = *e;
		t.w = 1; t.tab = buf; t.cval = 1; t.umin = 0; t.umax = 1; t.smin = -1; t.smax = 0;
		trail.push_back(intern(t));
	}
	if (nDecisions >= item.bound) {
		if (e->op == OP_TAB && !vars[e->aux].entangled) {
			Var& v = vars[e->aux];
			std::set<u64> seen{cur};
			for (u64 i = 0; i < v.n; ++i) if (inDom(v, i) && seen.insert(e->tab[i]).second) {
				auto vals = currentVals();
				vals[e->aux] = i;
				pushItem(vals, e->tab[i]);
			}
		} else {
			std::vector<Expr*> extra{mkNot(mkBin(OP_EQ, e->w, e, mkConst(e->w, cur)))};
			int n = 0;
			while (true) {
				std::vector<u64> vals;
				bool f = false;
				for (auto x: extra) if (isCV(x, 0)) f = true;
				if (f) break;
				if (++n > 4096) { event("incomplete", std::string("too many values: ") + what); break; }
				if (solve(extra, vals) != 1) break;
				// value of e under vals
				std::function<u64 (Expr*, std::unordered_map<Expr*, u64>&)> ev;
				extern u64 evalUnder (Expr* e, std::vector<u64> const& vals);
				u64 x = evalUnder(e, vals);
				pushItem(vals, x);
				extra.push_back(mkNot(mkBin(OP_EQ, e->w, e, mkConst(e->w, x))));
			}
		}
	}
	decide(cur);
	Expr* eq = mkBin(OP_EQ, e->w, e, mkConst(e->w, cur));
	if (e->op != OP_TAB) taken(eq);
	addConstraint(eq);
}

static u128 evalRec (Expr* e, std::vector<u64> const& vals, std::unordered_map<Expr*, u128>& memo)
{
	if (isC(e)) return e->val;
	if (e->op == OP_VAR) return vals[e->aux];
	if (e->op == OP_TAB) return e->tab[vals[e->aux]];
	auto it = memo.find(e);
	if (it != memo.end()) return it->second;
	u128 r;
	switch (e->op) {
	case OP_ITE: r = evalRec(e->k[0], vals, memo) ? evalRec(e->k[1], vals, memo) : evalRec(e->k[2], vals, memo); break;
	case OP_CONCAT: r = (evalRec(e->k[0], vals, memo) << e->k[1]->w) | evalRec(e->k[1], vals, memo); break;
	case OP_EXTRACT: r = (evalRec(e->k[0], vals, memo) >> e->aux) & maskw(e->w); break;
	case OP_ZEXT: r = evalRec(e->k[0], vals, memo); break;
	case OP_SEXT: r = (u128) (i128) sx((u64) evalRec(e->k[0], vals, memo), e->k[0]->w) & maskw(e->w); break;
	default:
		if (e->k[1]) r = evalBin(e->op, e->k[0]->w, (u64) evalRec(e->k[0], vals, memo), (u64) evalRec(e->k[1], vals, memo));
		else r = evalUn(e->op, e->k[0]->w, e->w, (u64) evalRec(e->k[0], vals, memo));
	}
	memo[e] = r;
	return r;
}
u64 evalUnder (Expr* e, std::vector<u64> const& vals)
{
	std::unordered_map<Expr*, u128> memo;
	return (u64) evalRec(e, vals, memo);
}

// The part of the input space this path stands for: the product over its inputs of (values left) / (values), modulo a
// prime. Paths are disjoint, so those of a complete exploration add up to 1. 0: not a product (a constraint over several inputs).
static const u64 PRIME = (1ull << 61) - 1;
static u64 mulP (u64 a, u64 b) { return (u64) ((u128) a * b % PRIME); }
static u64 powP (u64 a, u64 e) { u64 r = 1; for (; e; e >>= 1, a = mulP(a, a)) if (e & 1) r = mulP(r, a); return r; }
static u64 measure (Expr* and_ = nullptr)
{
	if (!pc.empty()) return 0;
	if (and_ && and_->op != OP_TAB) return 0;
	u64 num = 1, den = 1;
	for (auto& v: vars) {
		if (!v.small || v.n == 1) continue;
		u64 d = 0;
		for (unsigned k = 0; k < (v.n + 63) / 64; ++k) d += __builtin_popcountll(v.dom.b[k]);
		if (and_ && &v == &vars[and_->aux]) {
			d = 0;
			for (u64 i = 0; i < v.n; ++i) if (inDom(v, i) && and_->tab[i]) ++d;
		}
		num = mulP(num, d);
		den = mulP(den, v.n);
	}
	return mulP(num, powP(den, PRIME - 2));
}

// ---------------------------------------------------------------------------------------------- shadow memory
typedef u64 Cell;	// expression pointer | byte index << 56
struct Page { Cell c[4096]; unsigned live; };
static Page** top[1 << 23];	// addr >> 24 -> 4096 pages
static bool anySymbolic;

static inline Page* page (u64 a)
{
	Page** t = top[(a >> 24) & 0x7fffff];
	return t ? t[(a >> 12) & 4095] : nullptr;
}
static Page* makePage (u64 a)
{
	Page**& t = top[(a >> 24) & 0x7fffff];
	if (!t) t = arena<Page*>(4096);
	Page*& p = t[(a >> 12) & 4095];
	if (!p) p = arena<Page>();
	return p;
}
static inline Expr* cellExpr (Cell c) { return (Expr*) (c & 0x00ffffffffffffffull); }
static inline unsigned cellIdx (Cell c) { return c >> 56; }
static inline Cell getCell (u64 a) { Page* p = page(a); return p ? p->c[a & 4095] : 0; }
static inline void setCell (u64 a, Cell c)
{
	Page* p = c ? makePage(a) : page(a);
	if (p) p->c[a & 4095] = c;
}
static Expr* cellByte (Cell c)
{
	Expr* e = cellExpr(c);
	return mkExtract(e, cellIdx(c) * 8, 8);
}

static void clearRange (u64 a, u64 n)
{
	while (n) {
		u64 chunk = std::min(n, 4096 - (a & 4095));
		Page* p = page(a);
		if (p) memset(&p->c[a & 4095], 0, chunk * sizeof(Cell));
		a += chunk; n -= chunk;
	}
}

// ---- validity of the program's heap: for each 8 bytes of the arena, how many of the first are inside a live block
static uint8_t* blockMap;
static void badAccess (u64 a, u64 n, const char* what = "the heap");
static inline void checkHeap (u64 a, u64 n)
{
	u64 off = a - VP_ARENA;
	if (off >= VP_ARENA_SIZE || !n || !blockMap) return;
	for (u64 g = off >> 3, last = (off + n - 1) >> 3; g <= last; ++g) {
		u64 end = g == last ? ((off + n - 1) & 7) + 1 : 8;
		if (blockMap[g] < end) badAccess(a, n);
	}
}
static void markBlock (void* p, u64 n, bool live)
{
	u64 off = (u64) p - VP_ARENA;
	memset(blockMap + (off >> 3), live ? 8 : 0, (n + 7) >> 3);
	if (live && (n & 7)) blockMap[(off + n) >> 3] = n & 7;
}

extern "C" {
// (defined in main.c, in the executable)
extern Expr* __sym_args[256];
extern Expr* __sym_rets[64];
extern void* __sym_callee;
extern void* __sym_retfn;

void __sym_clear (void* p, u64 n)
{
	checkHeap((u64) p, n);
	if (!anySymbolic) return;
	clearRange((u64) p, n);
}

Expr* __sym_load (void* ptr, uint32_t n, uint32_t bits, u64)
{
	checkHeap((u64) ptr, n);
	if (!anySymbolic) return nullptr;
	u64 a = (u64) ptr;
	Page* p = page(a);
	if ((a & 4095) + n <= 4096) {
		if (!p) return nullptr;
		bool any = false;
		for (unsigned i = 0; i < n; ++i) if (p->c[(a & 4095) + i]) { any = true; break; }
		if (!any) return nullptr;
	} else {
		bool any = false;
		for (unsigned i = 0; i < n; ++i) if (getCell(a + i)) { any = true; break; }
		if (!any) return nullptr;
	}
	// drop stale cells
	bool any = false;
	for (unsigned i = 0; i < n; ++i) {
		Cell c = getCell(a + i);
		if (!c) continue;
		if ((uint8_t) (cellExpr(c)->cval >> (8 * cellIdx(c))) != ((uint8_t*) ptr)[i]) { setCell(a + i, 0); ++st.stale; continue; }
		any = true;
	}
	if (!any) return nullptr;
	Cell c0 = getCell(a);
	if (c0 && cellIdx(c0) == 0 && cellExpr(c0)->w == n * 8) {
		bool same = true;
		for (unsigned i = 1; i < n; ++i) { Cell c = getCell(a + i); if (!c || cellExpr(c) != cellExpr(c0) || cellIdx(c) != i) { same = false; break; } }
		if (same) {
			Expr* e = narrow(cellExpr(c0));
			if (bits < n * 8) e = mkExtract(e, 0, bits);
			return isC(e) ? nullptr : e;
		}
	}
	Expr* e = nullptr;
	for (int i = n - 1; i >= 0; --i) {
		Cell c = getCell(a + i);
		Expr* b = c ? cellByte(c) : mkConst(8, ((uint8_t*) ptr)[i]);
		e = e ? mkConcat(e, b) : b;
	}
	if (bits < n * 8) e = mkExtract(e, 0, bits);
	return isC(e) ? nullptr : e;
}

void __sym_store (void* ptr, uint32_t n, Expr* e)
{
	u64 a = (u64) ptr;
	checkHeap(a, n);
	if (!e || isC(e)) { if (anySymbolic) clearRange(a, n); return; }
	if (e->w < n * 8) e = mkUn(OP_ZEXT, n * 8, e);
	if (isC(e)) { clearRange(a, n); return; }
	for (unsigned i = 0; i < n; ++i) setCell(a + i, (u64) e | ((u64) i << 56));
}

void __sym_memmove (void* d, void* s, u64 n)
{
	checkHeap((u64) d, n);
	checkHeap((u64) s, n);
	if (!anySymbolic || n == 0) return;
	u64 a = (u64) d, b = (u64) s;
	// quick exit: no shadows in the source
	bool any = false;
	for (u64 o = 0; o < n;) {
		Page* p = page(b + o);
		u64 chunk = std::min(n - o, 4096 - ((b + o) & 4095));
		if (p) for (u64 i = 0; i < chunk; ++i) if (p->c[((b + o) & 4095) + i]) { any = true; break; }
		if (any) break;
		o += chunk;
	}
	if (!any) { clearRange(a, n); return; }
	std::vector<Cell> t(n);
	for (u64 i = 0; i < n; ++i) {
		Cell c = getCell(b + i);
		if (c && (uint8_t) (cellExpr(c)->cval >> (8 * cellIdx(c))) != ((uint8_t*) s)[i]) { c = 0; ++st.stale; }
		t[i] = c;
	}
	for (u64 i = 0; i < n; ++i) setCell(a + i, t[i]);
}

void __sym_memset (void* d, Expr* v, u64 n)
{
	checkHeap((u64) d, n);
	if (!v || isC(v)) { if (anySymbolic) clearRange((u64) d, n); return; }
	for (u64 i = 0; i < n; ++i) setCell((u64) d + i, (u64) v);
}

void __sym_byval (void* d, void* s, u64 n)
{
	if (!anySymbolic) return;
	if (!s) { clearRange((u64) d, n); return; }
	for (u64 i = 0; i < n; ++i) setCell((u64) d + i, getCell((u64) s + i));
}

Expr* __sym_bin (uint32_t op, uint32_t w, Expr* a, u64 ca, Expr* b, u64 cb)
{
	if (!a) a = mkConst(w, ca);
	if (!b) b = mkConst(w, cb);
	if (a->w != w || b->w != w) dieInternal("width mismatch");
	Expr* e = mkBin(op, w, a, b);
	return isC(e) ? nullptr : e;
}
Expr* __sym_cast (uint32_t op, uint32_t fw, uint32_t tw, Expr* a)
{
	if (!a) return nullptr;
	if (a->w != fw) dieInternal("cast width mismatch");
	Expr* e = mkUn(op, tw, a);
	return isC(e) ? nullptr : e;
}
Expr* __sym_ite (uint32_t w, Expr* c, u64 cc, Expr* a, u64 ca, Expr* b, u64 cb)
{
	if (!c) c = mkConst(1, cc);
	if (!a) a = mkConst(w, ca);
	if (!b) b = mkConst(w, cb);
	Expr* e = mkIte(c, a, b);
	return isC(e) ? nullptr : e;
}
Expr* __sym_extract (Expr* a, uint32_t lo, uint32_t w)
{
	if (!a) return nullptr;
	Expr* e = mkExtract(a, lo, w);
	return isC(e) ? nullptr : e;
}
Expr* __sym_insert (Expr* v, u64 clo, u64 chi, uint32_t vw, Expr* x, u64 cx, uint32_t lo, uint32_t xw)
{
	if (!v) v = mkConst(vw, ((u128) chi << 64) | clo);
	if (!x) x = mkConst(xw, cx);
	Expr* r = x;
	if (lo > 0) r = mkConcat(r, mkExtract(v, 0, lo));
	if (lo + xw < vw) r = mkConcat(mkExtract(v, lo + xw, vw - lo - xw), r);
	return isC(r) ? nullptr : r;
}
Expr* __sym_gep_term (Expr* acc, u64 fin, Expr* term, u64 scale)
{
	if (!term) return acc;
	if (!acc) acc = mkConst(64, fin);
	Expr* t = term->w < 64 ? mkUn(OP_SEXT, 64, term) : term;
	Expr* c = mkConst(64, (u64) sx((u64) term->cval, term->w > 64 ? 64 : term->w) * scale);
	acc = mkBin(OP_ADD, 64, acc, mkBin(OP_SUB, 64, mkBin(OP_MUL, 64, t, mkConst(64, scale)), c));
	return acc;
}
void __sym_branch (Expr* c, uint32_t cc, const char* site)
{
	if (!c) return;
	if ((u64) c->cval != cc) { event("inconsistent", std::string("branch in ") + site); return; }
	branchOn(c, cc, site);
}
void __sym_switch (Expr* e, u64 val, uint32_t w, uint32_t n, u64* vals, uint32_t* grp, uint32_t ngroups, const char* site)
{
	if (!e) return;
	if ((u64) e->cval != val) { event("inconsistent", std::string("switch in ") + site); return; }
	siteUse(site);
	std::vector<Expr*> cond(ngroups, FALSE_());
	Expr* def = TRUE_();
	unsigned taken = 0;
	for (unsigned i = 0; i < n; ++i) {
		Expr* q = mkBin(OP_EQ, w, e, mkConst(w, vals[i]));
		def = mkBin(OP_AND, 1, def, mkNot(q));
		cond[grp[i]] = mkBin(OP_OR, 1, cond[grp[i]], q);
		if (vals[i] == val) taken = grp[i];
	}
	cond[0] = mkBin(OP_OR, 1, cond[0], def);
	if (isCV(cond[taken], 1)) return;
	if (nDecisions >= item.bound) for (unsigned g = 0; g < ngroups; ++g) if (g != taken) tryAlternative(cond[g], g);
	decide(taken);
	::taken(cond[taken]);
	addConstraint(cond[taken]);
}
void __sym_concretize (Expr* e, const char* what)
{
	if (!e) return;
	concretizeOn(e, what);
}
void __sym_lost (const char* what) { event("lost", what); }
void __sym_check_ptr (const char* fn, void* p, uint32_t arg)
{
	if (!anySymbolic || !p) return;
	for (int i = 0; i < 32; ++i) {
		Cell c = getCell((u64) p + i);
		if (c && (uint8_t) (cellExpr(c)->cval >> (8 * cellIdx(c))) == ((uint8_t*) p)[i]) { event("native-sees-symbolic", std::string(fn) + " arg " + std::to_string(arg)); return; }
	}
}
}

// ---- heap map, for table lookups through symbolic addresses
static std::map<u64, u64>* heap;
struct Region { u64 lo, hi; };
static std::vector<Region>* regions;	// global data of the program and its libraries

static bool objectOf (u64 a, u64& lo, u64& hi)
{
	for (auto& r: *regions) if (a >= r.lo && a < r.hi) { lo = r.lo; hi = r.hi; return true; }
	auto i = heap->upper_bound(a);
	if (i != heap->begin()) {
		--i;
		if (a >= i->first && a < i->first + i->second) { lo = i->first; hi = lo + i->second; return true; }
	}
	return false;
}

extern "C" Expr* __sym_load_symptr (Expr* p, void* addr, uint32_t n, uint32_t bits, const char* site)
{
	if (!p) return nullptr;
	p = narrow(p);
	if (isC(p)) return nullptr;
	if ((u64) p->cval != (u64) addr) { event("inconsistent", std::string("load address in ") + site); return nullptr; }
	if (p->op == OP_TAB) {
		Var& v = vars[p->aux];
		u64 lo, hi;
		if (objectOf((u64) addr, lo, hi)) {
			bool ok = true;
			for (u64 i = 0; i < v.n && ok; ++i) if (inDom(v, i)) {
				u64 a = p->tab[i];
				if (a < lo || a + n > hi) ok = false;
				else for (unsigned k = 0; k < n; ++k) if (getCell(a + k)) ok = false;
			}
			if (ok) {
				u64 buf[SMALL];
				for (u64 i = 0; i < v.n; ++i) {
					buf[i] = 0;
					if (inDom(v, i)) { memcpy(&buf[i], (void*) p->tab[i], n); buf[i] &= mask64(bits); }
				}
				for (u64 i = 0; i < v.n; ++i) if (!inDom(v, i)) buf[i] = buf[v.cur];
				Expr* r = mkTab(p->aux, bits, buf);
				if (isC(r)) return nullptr;
				return r;
			}
		}
	}
	concretizeOn(p, (std::string("load address in ") + site).c_str());
	return nullptr;
}

// an access of n bytes at p, which is some way into the stack or global object [o, o + size)
extern "C" void __sym_bounds (Expr* p, void* addr, u64 n, void* o, u64 size)
{
	if (!inChild || !n) return;
	auto in = [&](u64 a) { u64 off = a - (u64) o; return off <= size && n <= size - off; };
	if (p) {
		p = narrow(p);
		if (!isC(p) && (u64) p->cval == (u64) addr) {
			bool all = false;
			if (p->op == OP_TAB) {
				Var& v = vars[p->aux];
				all = true;
				for (u64 i = 0; i < v.n && all; ++i) if (inDom(v, i) && !in(p->tab[i])) all = false;
			}
			if (!all) concretizeOn(p, "access to an object");
		}
	}
	if (!in((u64) addr)) badAccess((u64) addr, n, "a variable");
}

// ---- indirect calls that may reach native code
static u64 exeLo, exeHi;	// code of the instrumented executable
extern "C" void __sym_icall (void* target, uint32_t n, uint32_t)
{
	if ((u64) target >= exeLo && (u64) target < exeHi) return;
	bool any = false;
	for (unsigned i = 0; i < n; ++i) if (__sym_args[i]) any = true;
	if (!any) return;
	Dl_info di;
	std::string name = dladdr(target, &di) && di.dli_sname ? di.dli_sname : "?";
	// ctype<char>: virtual char -> char maps
	static const std::set<std::string> pure = {"_ZNKSt5ctypeIcE10do_tolowerEc", "_ZNKSt5ctypeIcE10do_toupperEc", "_ZNKSt5ctypeIcE8do_widenEc", "_ZNKSt5ctypeIcE9do_narrowEcc"};
	if (pure.count(name) && __sym_args[1] && __sym_args[1]->w == 8) {
		Expr* a = __sym_args[1];
		// the map is independent of the facet object for these functions
		static const std::ctype<char>* ct = &std::use_facet<std::ctype<char>>(std::locale::classic());
		bool lower = name.find("tolower") != std::string::npos, upper = name.find("toupper") != std::string::npos;
		auto f = [&](u64 x) -> u64 { return lower ? (uint8_t) ct->tolower((char) x) : upper ? (uint8_t) ct->toupper((char) x) : x; };
		Expr* r = nullptr;
		if (a->op == OP_TAB) r = tabUn(f, 8, a);
		else if (lower || upper) {
			Expr* up = mkBin(OP_ULT, 8, mkBin(OP_SUB, 8, a, mkConst(8, lower ? 'A' : 'a')), mkConst(8, 26));
			r = mkIte(up, mkBin(OP_XOR, 8, a, mkConst(8, 0x20)), a);
		} else r = a;
		__sym_rets[0] = isC(r) ? nullptr : r;
		__sym_retfn = target;
		__sym_callee = nullptr;
		return;
	}
	for (unsigned i = 0; i < n; ++i) if (__sym_args[i]) {
		event("native-arg", name);
		concretizeOn(__sym_args[i], ("native call " + name).c_str());
	}
}

// ---------------------------------------------------------------------------------------------- harness API
#define ARG(fn, i) ((__sym_callee == (void*) fn) ? __sym_args[i] : nullptr)

static Expr* newVar (const char* name, u64 n, unsigned w, u64& cur)
{
	unsigned idx = vars.size();
	vars.emplace_back();
	Var& v = vars.back();
	v.name = name;
	for (unsigned i = 0; i < idx; ++i) if (vars[i].name == v.name) { v.name += "." + std::to_string(idx); break; }
	v.n = n; v.w = w;
	v.small = n != 0 && n <= SMALL;
	v.entangled = false;
	u64 c = idx < item.vals.size() ? item.vals[idx] : hints.count(v.name) ? hints[v.name] : 0;
	if (n && c >= n) c = n - 1;
	v.cur = cur = c;
	v.e = nullptr;
	memset(&v.dom, 0, sizeof v.dom);
	anySymbolic = true;
	if (n == 1) return mkConst(w, 0);
	if (v.small) {
		for (u64 i = 0; i < n; ++i) v.dom.b[i >> 6] |= 1ull << (i & 63);
		u64 buf[SMALL];
		for (u64 i = 0; i < n; ++i) buf[i] = i;
		Expr* e = mkTab(idx, w, buf);
		vars[idx].e = e;
		return e;
	}
	Expr t; memset(&t, 0, sizeof t);
	t.op = OP_VAR; t.w = w; t.aux = idx; t.cval = c; t.sup = singleSet(idx);
	t.umin = 0; t.umax = n ? n - 1 : mask64(w);
	if (t.umax <= (u64) smaxOf(w)) { t.smin = 0; t.smax = t.umax; } else { t.smin = sminOf(w); t.smax = smaxOf(w); }
	return vars[idx].e = intern(t);
}
static void setRet (void* fn, Expr* e)
{
	__sym_rets[0] = (!e || isC(e)) ? nullptr : e;
	__sym_retfn = fn;
	__sym_callee = nullptr;
}
static unsigned widthFor (u64 n) { unsigned w = 1; while (w < 64 && n > (1ull << w)) ++w; return w; }

extern "C" {
uint8_t vp_byte (const char* name)
{
	u64 cur;
	Expr* e = newVar(name, 256, 8, cur);
	setRet((void*) vp_byte, e);
	return cur;
}
int64_t vp_range (const char* name, int64_t lo, int64_t hi)
{
	u64 n = (u64) hi - (u64) lo + 1, cur;
	// the variable is an index 0..n-1, widened and offset
	if (!hints.count(name) && lo <= 0 && hi >= 0 && n > SMALL) hints[name] = 0 - lo;
	Expr* e = newVar(name, n, n ? widthFor(n) : 64, cur);
	e = mkBin(OP_ADD, 64, mkUn(OP_ZEXT, 64, e), mkConst(64, (u64) lo));
	setRet((void*) vp_range, e);
	return lo + (i64) cur;
}
uint8_t vp_char (const char* name, const char* set, unsigned n)
{
	u64 cur;
	Expr* e = newVar(name, n, 8, cur);
	u64 buf[SMALL];
	for (unsigned i = 0; i < n; ++i) buf[i] = (uint8_t) set[i];
	if (!isC(e)) e = mkTab(e->aux, 8, buf);
	setRet((void*) vp_char, e);
	return set[cur];
}
int vp_choice (const char* name, int n)
{
	u64 cur;
	Expr* e = newVar(name, n, widthFor(n), cur);
	concretizeOn(e, "choice");
	setRet((void*) vp_choice, nullptr);
	return cur;
}
void vp_assume (int cond)
{
	Expr* c = ARG(vp_assume, 0);
	__sym_callee = nullptr;
	++st.assumes;
	if (!c) { if (!cond) finishPath("assume"); return; }
	c = narrow(mkNot(mkBin(OP_EQ, c->w, c, mkConst(c->w, 0))));
	if (!cond) {
		if (nDecisions >= item.bound) tryAlternative(c, 2);
		if (!isC(c)) addConstraint(mkNot(c));
		finishPath("assume");
	}
	if (isC(c)) return;
	if (nDecisions >= item.bound) {
		// what is assumed away
		u64 m = measure(mkNot(c));
		send(R_MEASURE, std::string((char*) &m, 8));
	}
	decide(2);
	taken(c);
	addConstraint(c);
}
static void assertExpr (Expr* c, bool cond, const char* msg)
{
	if (!cond) {
		report(msg, currentVals());
		finishPath("violation");
	}
	if (c && certify && c->op != OP_TAB) claim(c);
	if (!c || isC(c = knownBool(narrow(c)))) { ++st.assertsTrivial; return; }
	if (c->op == OP_TAB && !vars[c->aux].entangled) {
		Var& v = vars[c->aux];
		for (u64 i = 0; i < v.n; ++i) if (inDom(v, i) && !c->tab[i]) {
			auto vals = currentVals();
			vals[c->aux] = i;
			report(msg, vals);
			finishPath("violation");
		}
	}
	deferred.push_back({c, msg});
}
void vp_assert (int cond, const char* msg)
{
	Expr* c = ARG(vp_assert, 0);
	__sym_callee = nullptr;
	if (c) c = mkNot(mkBin(OP_EQ, c->w, c, mkConst(c->w, 0)));
	assertExpr(c, cond, msg);
}
void vp_fail (const char* msg)
{
	report(msg, currentVals());
	finishPath("violation");
}
void vp_cover (const char* label) { send(R_COVER, label); }
void vp_note (const char* label, const char* text) { send(R_NOTE, std::string(label) + ": " + text); }
void vp_observe (uint64_t v) { __sym_callee = nullptr; for (int i = 0; i < 8; ++i) { digest ^= (v >> (8 * i)) & 0xff; digest *= 1099511628211ull; } }
void vp_observe_bytes (const void* p, size_t n) { __sym_callee = nullptr; for (size_t i = 0; i < n; ++i) { digest ^= ((const uint8_t*) p)[i]; digest *= 1099511628211ull; } }
int vp_case (void) { return opt.cas; }
int vp_tier (void) { return opt.tier; }
int vp_symbolic (void) { return 1; }
int vp_has_sym (const void* p, size_t n)
{
	if (!anySymbolic) return 0;
	for (size_t i = 0; i < n; ++i) {
		Cell c = getCell((u64) p + i);
		if (c && (uint8_t) (cellExpr(c)->cval >> (8 * cellIdx(c))) == ((uint8_t*) p)[i]) return 1;
	}
	return 0;
}
int vp_is_sym (uint64_t)
{
	Expr* e = ARG(vp_is_sym, 0);
	__sym_callee = nullptr;
	return e && !isC(narrow(e));
}
static Expr* byteAt (const void* p, size_t i)
{
	Cell c = getCell((u64) p + i);
	uint8_t b = ((const uint8_t*) p)[i];
	if (c && (uint8_t) (cellExpr(c)->cval >> (8 * cellIdx(c))) == b) return cellByte(c);
	return mkConst(8, b);
}
int vp_mem_eq (const void* a, const void* b, size_t n)
{
	Expr* e = TRUE_();
	if (anySymbolic) for (size_t i = 0; i < n; ++i) {
		Expr* q = mkBin(OP_EQ, 8, byteAt(a, i), byteAt(b, i));
		if (isCV(q, 0)) { e = q; break; }
		e = mkBin(OP_AND, 1, e, q);
	}
	bool r = memcmp(a, b, n) == 0;
	setRet((void*) vp_mem_eq, mkUn(OP_ZEXT, 32, e));
	return r;
}
int vp_mem_cmp (const void* a, const void* b, size_t n)
{
	int r = memcmp(a, b, n);
	r = r < 0 ? -1 : r > 0 ? 1 : 0;
	if (!anySymbolic) { setRet((void*) vp_mem_cmp, nullptr); return r; }
	Expr* eq = TRUE_();
	Expr* diff = mkConst(32, 1);
	bool first = true;
	for (size_t k = n; k-- > 0;) {
		Expr *x = byteAt(a, k), *y = byteAt(b, k);
		Expr* q = mkBin(OP_EQ, 8, x, y);
		Expr* lt = mkIte(mkBin(OP_ULT, 8, x, y), mkConst(32, 0xffffffff), mkConst(32, 1));
		eq = mkBin(OP_AND, 1, q, eq);
		diff = first ? lt : mkIte(q, diff, lt);
		first = false;
	}
	Expr* e = mkIte(eq, mkConst(32, 0), diff);
	setRet((void*) vp_mem_cmp, e);
	if (isC(e)) return sx((u64) e->val, 32);
	return r;
}
int64_t vp_concretize (int64_t v)
{
	Expr* e = ARG(vp_concretize, 0);
	__sym_callee = nullptr;
	if (e) concretizeOn(e, "harness");
	setRet((void*) vp_concretize, nullptr);
	return v;
}
int64_t vp_ite (int c, int64_t a, int64_t b)
{
	Expr *ec = ARG(vp_ite, 0), *ea = ARG(vp_ite, 1), *eb = ARG(vp_ite, 2);
	if (!ec) { setRet((void*) vp_ite, c ? ea : eb); return c ? a : b; }
	Expr* q = mkNot(mkBin(OP_EQ, ec->w, ec, mkConst(ec->w, 0)));
	setRet((void*) vp_ite, mkIte(q, ea ? ea : mkConst(64, (u64) a), eb ? eb : mkConst(64, (u64) b)));
	return c ? a : b;
}
void vp_hint (const char* name, int64_t v) { __sym_callee = nullptr; hints[name] = v; }
void vp_stop (void) { finishPath("stop"); }

// for the models
void vp_rt_alloc (void* p, size_t n) { if (inChild) { (*heap)[(u64) p] = n; __sym_clear(p, n); } }

// uninstrumented functions for the models
int vp_n_memcmp (const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* vp_n_memchr (const void* p, int c, size_t n) { return (void*) memchr(p, c, n); }
// blocks of the program: a header with the size class, freed blocks of a class are reused last in first out
static char* arenaTop;
static void* arenaFree[64 * 4];
static unsigned arenaClass (size_t n)
{
	if (n <= 16) return 0;
	unsigned b = 63 - __builtin_clzll(n - 1);
	return (b - 3) * 4 + (unsigned) (((n - 1) >> (b - 2)) & 3);
}
static size_t arenaBytes (unsigned c) { return c == 0 ? 16 : ((size_t) (4 + (c & 3)) + 1) << (c / 4 + 3 - 2); }
void* vp_arena_alloc (size_t n)
{
	if (!arenaTop) {
		arenaTop = (char*) mmap((void*) VP_ARENA, VP_ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (arenaTop != (char*) VP_ARENA) { fprintf(stderr, "no arena\n"); _exit(3); }
		blockMap = (uint8_t*) mmap(nullptr, VP_ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (blockMap == MAP_FAILED) { fprintf(stderr, "no block map\n"); _exit(3); }
	}
	unsigned c = arenaClass(n);
	char* p;
	if (arenaFree[c]) { p = (char*) arenaFree[c]; memcpy(&arenaFree[c], p, 8); }
	else {
		size_t z = (arenaBytes(c) + 15) & ~(size_t) 15;
		if (arenaTop + z + 16 > (char*) VP_ARENA + VP_ARENA_SIZE) return nullptr;
		p = arenaTop + 16;
		arenaTop += z + 16;
	}
	((uint64_t*) p)[-1] = n;
	markBlock(p, n, true);
	return p;
}
void vp_arena_free (void* p)
{
	if (!blockMap || (((u64*) p)[-1] && !blockMap[((u64) p - VP_ARENA) >> 3])) badAccess((u64) p, 1);
	markBlock(p, ((uint64_t*) p)[-1], false);
	unsigned c = arenaClass(((uint64_t*) p)[-1]);
	memcpy(p, &arenaFree[c], 8);
	arenaFree[c] = p;
}
size_t vp_arena_size (void* p) { return ((uint64_t*) p)[-1]; }
void* vp_n_malloc (size_t n) { return n > (1ull << 32) ? nullptr : vp_arena_alloc(n); }
void* vp_n_calloc (size_t n) { void* p = vp_n_malloc(n); if (p) memset(p, 0, n); return p; }
void* vp_n_new (size_t n)
{
	// an absurd size is reported the way the allocator would
	if (n > (1ull << 32)) throw std::bad_alloc();
	return vp_arena_alloc(n);
}
void vp_n_free (void* p) { free(p); }
size_t vp_n_usable (void* p) { auto i = heap->find((u64) p); return i == heap->end() ? 0 : i->second; }
void* vp_n_exception (size_t n) { return cxaAlloc(n); }
void* vp_n_runtime_error (void* self, const char* p, size_t n)
{
	auto e = new (self) std::runtime_error(std::string(p, n));
	return (void*) e->what();
}
double vp_n_strtod (const char* s) { return strtod(s, nullptr); }
float vp_n_strtof (const char* s) { return strtof(s, nullptr); }
double vp_n_fmod (double a, double b) { return fmod(a, b); }
int vp_n_fmt_double (char* b, size_t n, const char* flags, int width, int prec, char conv, uint64_t v)
{
	char f[96];
	double d; memcpy(&d, &v, 8);
	snprintf(f, sizeof f, prec >= 0 ? "%s*.*%c" : "%s*%c", flags, conv);
	if (conv == 'p') return snprintf(b, n, "%p", (void*) v);
	return prec >= 0 ? snprintf(b, n, f, width, prec, d) : snprintf(b, n, f, width, d);
}
void vp_n_unsupported (const char* w) { event("unsupported", w); finishPath("unsupported"); }
int vp_n_stdstream (FILE* f) { return f == stdout || f == stderr || f == stdin; }
void vpm_vfs_put (const char* path, const void* data, size_t n);
long vpm_vfs_size (const char* path);
const unsigned char* vpm_vfs_data (const char* path);
void vpm_set_locale (const char*, const char*);
}

namespace __cxxabiv1 { extern "C" void* __cxa_allocate_exception (size_t) noexcept; }
void* cxaAlloc (size_t n) { return __cxxabiv1::__cxa_allocate_exception(n); }

// end of path: discharge the deferred assertions with the solver
static void discharge ()
{
	if (deferred.empty()) return;
	Expr* all = TRUE_();
	unsigned n = 0;
	for (auto& d: deferred) {
		Expr* c = knownBool(narrow(d.first));
		if (isC(c) && c->val) { ++st.assertsTable; continue; }
		all = mkBin(OP_AND, 1, all, d.first);
		++n;
	}
	if (isCV(all, 1)) return;
	// cheap pass: group by connected variables is left to the slicing in solve(); query each distinct assertion together
	std::vector<u64> vals;
	int r = solve({mkNot(all)}, vals);
	if (r == 0) { st.assertsSolver += n; return; }
	if (r == 1) {
		for (auto& d: deferred) if (!evalUnder(d.first, vals)) { report(d.second, vals); return; }
		report("assertion", vals);
		return;
	}
	// unknown: one by one
	for (auto& d: deferred) {
		Expr* c = knownBool(narrow(d.first));
		if (isC(c) && c->val) continue;
		r = solve({mkNot(c)}, vals);
		if (r == 0) ++st.assertsSolver;
		else if (r == 1) { report(d.second, vals); return; }
		else event("undecided-assertion", d.second);
	}
}

// can any of the claims fail under the conditions met before it?
static void secondOpinion ()
{
	if (claims.empty()) return;
	double t0 = now();
	building = true;
	for (auto& v: vars) if (v.small) {
		memset(&v.dom, 0, sizeof v.dom);
		for (u64 i = 0; i < v.n; ++i) v.dom.b[i >> 6] |= 1ull << (i & 63);
	}
	zcache->clear(); zbcache->clear(); zfcache->clear();
	bool weak = false;
	try {
		z3::solver s(*zc, "QF_BV");
		z3::params p(*zc);
		p.set("timeout", 3000u);
		s.set(p);
		std::unordered_set<Expr*> seen;
		const VarSet* sup = emptySet;
		z3::expr prefix = zc->bool_val(true);
		z3::expr_vector fails(*zc);
		size_t at = 0;
		u64 n = 0;
		for (size_t k = 0; k <= trail.size(); ++k) {
			z3::expr_vector here(*zc);
			for (; at < claims.size() && claims[at].pos == k; ++at) {
				Expr* e = claims[at].e;
				seen.clear();
				if (e->fp || heavy(e, seen)) continue;	// decided by a query of its own
				here.push_back(!lowerBool(e));
				sup = unionSet(sup, e->sup);
				++n;
			}
			if (!here.empty()) fails.push_back(prefix && z3::mk_or(here));
			if (k == trail.size()) break;
			Expr* e = trail[k];
			seen.clear();
			if (e->fp || heavy(e, seen)) { weak = true; continue; }
			z3::expr q = zc->bool_const(("p" + std::to_string(k)).c_str());
			s.add(q == (prefix && lowerBool(e)));
			sup = unionSet(sup, e->sup);
			prefix = q;
		}
		if (n) {
			std::set<unsigned> vs;
			addVars(sup, vs);
			for (auto v: vs) s.add(domainOf(v));
			s.add(z3::mk_or(fails));
			if (!opt.dump.empty()) { std::ofstream f(opt.dump + "." + std::to_string(getpid()) + ".cert.smt2"); f << s.to_smt2(); }
			auto r = s.check();
			++st.queries;
			if (r == z3::unsat) { ++st.unsat; ++st.certPaths; st.certClaims += n; }
			else if (r == z3::sat) {
				++st.sat; ++st.certOpen;
				if (!weak) event("undecided-second-opinion", "Z3 does not agree with what was decided on domains");
			} else ++st.certOpen;
		}
	} catch (z3::exception& e) {
		++st.certOpen;
	}
	st.certTime += now() - t0;
	st.solverTime += now() - t0;
}

[[noreturn]] static void finishPath (const char* how)
{
	struct itimerval it; memset(&it, 0, sizeof it);
	static bool again = false;
	if (!again) {
		again = true;
		if (strcmp(how, "violation") && strcmp(how, "diverged")) discharge();
	}
	u64 m = measure();
	if (certify && strcmp(how, "violation") && strcmp(how, "diverged")) secondOpinion();
	sendStats();
	std::string s = how;
	s += '\n';
	s.append((char*) &digest, 8);
	send(R_MEASURE, std::string((char*) &m, 8));
	s += assignmentText(currentVals());
	send(R_DONE, s);
	flushOut();
	_exit(0);
}

static bool inRuntime;
static void badAccess (u64 a, u64 n, const char* what)
{
	if (!inChild || inRuntime) return;
	inRuntime = true;
	char b[128];
	snprintf(b, sizeof b, "crash: access to %llu bytes of %s outside a live object", (unsigned long long) n, what);
	(void) a;
	report(b, currentVals());
	sendStats();
	std::string s = "crash\n"; s.append((char*) &digest, 8); s += assignmentText(currentVals());
	send(R_DONE, s);
	flushOut();
	_exit(0);
}

static void onSignal (int sig)
{
	struct itimerval it; memset(&it, 0, sizeof it);
	setitimer(ITIMER_VIRTUAL, &it, nullptr);
	signal(sig, SIG_DFL);
	sigset_t ss; sigemptyset(&ss); sigaddset(&ss, sig); sigprocmask(SIG_UNBLOCK, &ss, nullptr);
	if (sig == SIGVTALRM) {
		report("does not terminate (no result after " + std::to_string(opt.pathCpu) + " s of CPU time)", currentVals());
		sendStats();
		std::string s = "timeout\n"; s.append((char*) &digest, 8); s += assignmentText(currentVals());
		send(R_DONE, s);
	} else {
		report(std::string("crash: signal ") + std::to_string(sig) + " (" + strsignal(sig) + ")", currentVals());
		sendStats();
		std::string s = "crash\n"; s.append((char*) &digest, 8); s += assignmentText(currentVals());
		send(R_DONE, s);
	}
	flushOut();
	_exit(0);
}

// ---------------------------------------------------------------------------------------------- explorer
static void initTables ()
{
	table = new std::unordered_set<Expr*, ExprHash, ExprEq>();
	table->reserve(1 << 14);
	sets = new std::unordered_map<u64, std::vector<const VarSet*>>();
	emptySet = internSet({});
	known = new std::unordered_map<Expr*, bool>();
	heap = new std::map<u64, u64>();
	regions = new std::vector<Region>();
	sitesSeen = new std::unordered_set<std::string>();
	zcache = new std::unordered_map<Expr*, z3::expr>();
	zbcache = new std::unordered_map<Expr*, z3::expr>();
	zfcache = new std::unordered_map<Expr*, z3::expr>();
	zvars = new std::vector<z3::expr>();
	zc = new z3::context();
	std::ifstream m("/proc/self/maps");
	std::string l;
	u64 last = 0;
	while (std::getline(m, l)) {
		unsigned long lo, hi; char perm[8], path[512] = "";
		unsigned long off; char dev[16]; unsigned long ino;
		if (sscanf(l.c_str(), "%lx-%lx %7s %lx %15s %lu %511s", &lo, &hi, perm, &off, dev, &ino, path) < 6) continue;
		if ((u64) vp_harness >= lo && (u64) vp_harness < hi) { exeLo = lo; exeHi = hi; }
		bool file = path[0] == '/';
		bool bss = !path[0] && lo == last;	// anonymous part just after a file mapping
		if ((file || bss) && perm[0] == 'r') regions->push_back({lo, hi});
		if (file) last = hi; else last = 0;
	}
}

static void childMain (Item const& it, int fd)
{
	inChild = true;
	pipeFd = fd;
	item = it;
	vars.reserve(4096);
	static char alt[65536];
	stack_t sst; memset(&sst, 0, sizeof sst); sst.ss_sp = alt; sst.ss_size = sizeof alt;
	sigaltstack(&sst, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
	for (int s: {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
	struct itimerval tv; memset(&tv, 0, sizeof tv);
	tv.it_value.tv_sec = opt.pathCpu;
	setitimer(ITIMER_VIRTUAL, &tv, nullptr);
	std::string exc;
	try {
		vp_harness();
	} catch (std::exception& e) {
		exc = std::string("unexpected exception: ") + e.what();
	} catch (...) {
		exc = "unexpected exception (not derived from std::exception)";
	}
	if (!exc.empty()) { report(exc, currentVals()); finishPath("violation"); }
	finishPath("done");
}

struct Child { pid_t pid; int fd; std::string buf; double start; bool done; };

static std::string jstr (std::string const& s)
{
	std::string o = "\"";
	for (unsigned char c: s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}

extern "C" int vp_main (int argc, char** argv)
{
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto next = [&]() { return std::string(argv[++i]); };
		if (a == "--case") opt.cas = atoi(next().c_str());
		else if (a == "--jobs") opt.jobs = atoi(next().c_str());
		else if (a == "--tier") opt.tier = atoi(next().c_str());
		else if (a == "--budget") opt.budget = atof(next().c_str());
		else if (a == "--max-paths") opt.maxPaths = atol(next().c_str());
		else if (a == "--path-cpu") opt.pathCpu = atoi(next().c_str());
		else if (a == "--seed") opt.seed = atoi(next().c_str());
		else if (a == "--samples") opt.samples = atoi(next().c_str());
		else if (a == "--qtimeout") opt.qtimeout = atoi(next().c_str());
		else if (a == "--out") opt.out = next();
		else if (a == "--dump") opt.dump = next();
		else if (a == "-v") opt.verbose = true;
	}
	initTables();
	int devnull = open("/dev/null", O_WRONLY);
	std::mt19937 rng(opt.seed);
	std::vector<Item> queue;
	queue.push_back(Item{{}, 0, 0});
	std::vector<Child> running;
	std::map<std::string, u64> events, covers, sites, ends;
	std::map<std::string, std::string> notes;
	std::map<std::string, std::string> viols;	// message -> first assignment
	std::vector<std::pair<std::string, u64>> samples;
	u64 nviol = 0;
	Stats tot; memset(&tot, 0, sizeof tot);
	u64 sum = 0, notProduct = 0;
	u64 paths = 0, maxDepth = 0, lostItems = 0, abnormal = 0;
	double t0 = now();
	deadline = t0 + opt.budget;
	claimed = new std::unordered_set<Expr*>();
	bool stopping = false;
	u64 started = 0;
	while (!running.empty() || (!queue.empty() && !stopping)) {
		if (now() > deadline || nviol >= (u64) opt.maxViol || started >= (u64) opt.maxPaths) stopping = true;
		while (!stopping && !queue.empty() && (int) running.size() < opt.jobs) {
			size_t k = queue.size() > 64 ? rng() % queue.size() : queue.size() - 1;
			std::swap(queue[k], queue.back());
			Item it = queue.back();
			queue.pop_back();
			int p[2];
			if (pipe(p)) { perror("pipe"); return 2; }
			fflush(stdout); fflush(stderr);
			certify = tot.certTime < 0.1 + (opt.tier ? 0.4 : 0.2) * (now() - t0) * opt.jobs && now() - t0 < opt.budget / 2;
			pid_t pid = fork();
			if (pid == 0) {
				close(p[0]);
				for (auto& c: running) close(c.fd);
				if (!opt.verbose) { dup2(devnull, 1); dup2(devnull, 2); }
				childMain(it, p[1]);
				_exit(0);
			}
			if (pid < 0) { queue.push_back(it); usleep(10000); break; }
			close(p[1]);
			fcntl(p[0], F_SETPIPE_SZ, 1 << 18);
			running.push_back({pid, p[0], "", now(), false});
			++started;
		}
		if (running.empty()) continue;
		std::vector<struct pollfd> pf;
		for (auto& c: running) pf.push_back({c.fd, POLLIN, 0});
		poll(pf.data(), pf.size(), 1000);
		for (size_t i = 0; i < pf.size(); ++i) {
			Child& c = running[i];
			bool eof = false;
			if (pf[i].revents) {
				char b[65536];
				ssize_t n = read(c.fd, b, sizeof b);
				if (n > 0) c.buf.append(b, n);
				else eof = true;
			}
			if (now() - c.start > opt.pathCpu * 4 + 60 || (stopping && now() > deadline + 15)) { kill(c.pid, SIGKILL); eof = true; events["killed: path ran too long"]++; }
			if (!eof) continue;
			close(c.fd);
			int stt; waitpid(c.pid, &stt, 0);
			// process records
			size_t o = 0;
			bool done = false;
			unsigned measured = 0;
			while (o + 5 <= c.buf.size()) {
				uint8_t r = c.buf[o];
				uint32_t n; memcpy(&n, &c.buf[o + 1], 4);
				if (o + 5 + n > c.buf.size()) break;
				std::string pl = c.buf.substr(o + 5, n);
				o += 5 + n;
				switch (r) {
				case R_ITEM: {
					Item it;
					memcpy(&it.bound, pl.data(), 4);
					memcpy(&it.hash, pl.data() + 4, 8);
					uint32_t k; memcpy(&k, pl.data() + 12, 4);
					it.vals.resize(k);
					memcpy(it.vals.data(), pl.data() + 16, k * 8);
					queue.push_back(it);
					break;
				}
				case R_VIOL: {
					++nviol;
					size_t nl = pl.find('\n');
					viols.insert({pl.substr(0, nl), pl.substr(nl + 1)});
					break;
				}
				case R_EVENT: events[pl]++; break;
				case R_COVER: covers[pl]++; break;
				case R_SITE: sites[pl]++; break;
				case R_NOTE: { size_t k = pl.find(": "); notes[pl.substr(0, k)] = pl.substr(k + 2); break; }
				case R_STATS: {
					Stats s; memcpy(&s, pl.data(), sizeof s);
					tot.decisions += s.decisions; tot.queries += s.queries; tot.sat += s.sat; tot.unsat += s.unsat; tot.unknown += s.unknown;
					tot.assertsTrivial += s.assertsTrivial; tot.assertsTable += s.assertsTable; tot.assertsSolver += s.assertsSolver; tot.assumes += s.assumes; tot.stale += s.stale; tot.exprs += s.exprs;
					tot.solverTime += s.solverTime; tot.certPaths += s.certPaths; tot.certClaims += s.certClaims; tot.certOpen += s.certOpen; tot.certTime += s.certTime; tot.arith += s.arith; tot.spurious += s.spurious;
					maxDepth = std::max(maxDepth, s.decisions);
					break;
				}
				case R_MEASURE: {
					u64 m; memcpy(&m, pl.data(), 8);
					++measured;
					if (m) sum = (sum + m) % PRIME; else ++notProduct;
					break;
				}
				case R_DONE: {
					done = true;
					if (!measured) ++notProduct;
					size_t nl = pl.find('\n');
					std::string how = pl.substr(0, nl);
					ends[how]++;
					++paths;
					if (how == "done" || how == "stop") {
						u64 d; memcpy(&d, pl.data() + nl + 1, 8);
						std::string a = pl.substr(nl + 9);
						if ((int) samples.size() < opt.samples) samples.push_back({a, d});
						else { u64 k = rng() % paths; if (k < samples.size()) samples[k] = {a, d}; }
					}
					break;
				}
				}
			}
			if (!done) { ++abnormal; events["abnormal: path ended without a result, status " + std::to_string(stt)]++; }
			c.done = true;
		}
		running.erase(std::remove_if(running.begin(), running.end(), [](Child const& c) { return c.done; }), running.end());
	}
	lostItems = queue.size();
	double wall = now() - t0;
	std::ostringstream js;
	// every input lies on one of the explored paths?
	const char* partition = lostItems || abnormal || nviol ? "not complete" : notProduct ? "not countable" : sum == 1 ? "whole" : "missing";
	if (!strcmp(partition, "missing")) events["incomplete: the explored paths are not the whole input space"]++;
	js << "{\n\"partition\": \"" << partition << "\",\n\"case\": " << opt.cas << ",\n\"paths\": " << paths << ",\n\"pending\": " << lostItems << ",\n\"abnormal\": " << abnormal << ",\n\"decisions\": " << tot.decisions << ",\n\"max_depth\": " << maxDepth
	   << ",\n\"cert_paths\": " << tot.certPaths << ",\n\"cert_claims\": " << tot.certClaims << ",\n\"cert_open\": " << tot.certOpen << ",\n\"cert_s\": " << tot.certTime
	   << ",\n\"queries\": " << tot.queries << ",\n\"sat\": " << tot.sat << ",\n\"unsat\": " << tot.unsat << ",\n\"unknown\": " << tot.unknown << ",\n\"arith_queries\": " << tot.arith << ",\n\"arith_spurious\": " << tot.spurious
	   << ",\n\"asserts_folded\": " << tot.assertsTrivial << ",\n\"asserts_domain\": " << tot.assertsTable << ",\n\"asserts_solver\": " << tot.assertsSolver << ",\n\"assumes\": " << tot.assumes
	   << ",\n\"stale\": " << tot.stale << ",\n\"exprs\": " << tot.exprs << ",\n\"solver_s\": " << tot.solverTime << ",\n\"wall_s\": " << wall;
	auto dumpMap = [&](const char* n, std::map<std::string, u64> const& m) {
		js << ",\n\"" << n << "\": {";
		bool f = true;
		for (auto& e: m) { js << (f ? "" : ", ") << jstr(e.first) << ": " << e.second; f = false; }
		js << "}";
	};
	dumpMap("ends", ends); dumpMap("events", events); dumpMap("covers", covers); dumpMap("sites", sites);
	js << ",\n\"notes\": {";
	{ bool f = true; for (auto& n: notes) { js << (f ? "" : ", ") << jstr(n.first) << ": " << jstr(n.second); f = false; } }
	js << "},\n\"violations\": [";
	{ bool f = true; for (auto& v: viols) { js << (f ? "" : ", ") << "{\"msg\": " << jstr(v.first) << ", \"input\": " << jstr(v.second) << "}"; f = false; } }
	js << "],\n\"samples\": [";
	{ bool f = true; for (auto& s: samples) { char d[32]; snprintf(d, sizeof d, "%016llx", (unsigned long long) s.second); js << (f ? "" : ",\n") << "{\"digest\": \"" << d << "\", \"input\": " << jstr(s.first) << "}"; f = false; } }
	js << "]\n}\n";
	if (!opt.out.empty()) { std::ofstream f(opt.out); f << js.str(); }
	else fputs(js.str().c_str(), stdout);
	return 0;
}
