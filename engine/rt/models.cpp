// Models of the C and C++ library functions that read or produce program data.  Compiled with the pass, so that they compute
// symbolically; the pass redirects calls of X to vpm_X (same prototype) and of variadic X to vpm_va_X (values in an array).
// Compile with -fno-builtin.
#include "vp.h"
#include "models.h"
#include <cerrno>
#include <climits>
#include <clocale>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <istream>
#include <ostream>
#include <new>
#include <string>
#include <boost/filesystem.hpp>

typedef unsigned char uc;

extern "C" {

// ---- memory and strings
int vpm_memcmp (const void* a, const void* b, size_t n)
{
	n = vp_concretize(n);
	if (!vp_has_sym(a, n) && !vp_has_sym(b, n)) return vp_n_memcmp(a, b, n);
	return vp_mem_cmp(a, b, n);
}
int vpm_bcmp (const void* a, const void* b, size_t n)
{
	n = vp_concretize(n);
	if (!vp_has_sym(a, n) && !vp_has_sym(b, n)) return vp_n_memcmp(a, b, n);
	return !vp_mem_eq(a, b, n);
}
void* vpm_memchr (const void* p, int c, size_t n)
{
	n = vp_concretize(n);
	if (!vp_is_sym(c) && !vp_has_sym(p, n)) return vp_n_memchr(p, c, n);
	const uc* q = (const uc*) p;
	for (size_t i = 0; i < n; ++i) if (q[i] == (uc) c) return (void*) (q + i);
	return nullptr;
}
void* vpm_memrchr (const void* p, int c, size_t n)
{
	const uc* q = (const uc*) p;
	for (size_t i = n; i-- > 0;) if (q[i] == (uc) c) return (void*) (q + i);
	return nullptr;
}
size_t vpm_strlen (const char* s)
{
	size_t i = 0;
	while (s[i]) ++i;
	return i;
}
int vpm_strcmp (const char* a, const char* b)
{
	for (size_t i = 0;; ++i) {
		uc x = a[i], y = b[i];
		if (x != y) return x < y ? -1 : 1;
		if (!x) return 0;
	}
}
int vpm_strncmp (const char* a, const char* b, size_t n)
{
	for (size_t i = 0; i < n; ++i) {
		uc x = a[i], y = b[i];
		if (x != y) return x < y ? -1 : 1;
		if (!x) return 0;
	}
	return 0;
}
static inline int lower (int c) { return c + (((unsigned) (c - 'A') < 26) << 5); }
static inline int upper (int c) { return c - (((unsigned) (c - 'a') < 26) << 5); }
int vpm_tolower (int c) { return lower(c); }
int vpm_toupper (int c) { return upper(c); }
int vpm_strcasecmp (const char* a, const char* b)
{
	for (size_t i = 0;; ++i) {
		int x = lower((uc) a[i]), y = lower((uc) b[i]);
		if (x != y) return x < y ? -1 : 1;
		if (!x) return 0;
	}
}
int vpm_strncasecmp (const char* a, const char* b, size_t n)
{
	for (size_t i = 0; i < n; ++i) {
		int x = lower((uc) a[i]), y = lower((uc) b[i]);
		if (x != y) return x < y ? -1 : 1;
		if (!x) return 0;
	}
	return 0;
}
char* vpm_strchr (const char* s, int c)
{
	for (;; ++s) {
		if (*s == (char) c) return (char*) s;
		if (!*s) return nullptr;
	}
}
char* vpm_strrchr (const char* s, int c)
{
	size_t n = vpm_strlen(s) + 1;
	while (n-- > 0) if (s[n] == (char) c) return (char*) s + n;
	return nullptr;
}
void* vpm_memmem (const void* h, size_t n, const void* x, size_t m)
{
	if (m == 0) return (void*) h;
	for (size_t i = 0; i + m <= n; ++i) if (vpm_bcmp((const char*) h + i, x, m) == 0) return (char*) h + i;
	return nullptr;
}
char* vpm_strstr (const char* h, const char* x) { return (char*) vpm_memmem(h, vpm_strlen(h), x, vpm_strlen(x)); }
size_t vpm_strspn (const char* s, const char* set)
{
	size_t i = 0;
	for (; s[i]; ++i) if (!vpm_strchr(set, s[i])) break;
	return i;
}
size_t vpm_strcspn (const char* s, const char* set)
{
	size_t i = 0;
	for (; s[i]; ++i) if (vpm_strchr(set, s[i])) break;
	return i;
}
char* vpm_strcpy (char* d, const char* s) { memcpy(d, s, vpm_strlen(s) + 1); return d; }
char* vpm_strncpy (char* d, const char* s, size_t n)
{
	size_t i = 0;
	for (; i < n && s[i]; ++i) d[i] = s[i];
	for (; i < n; ++i) d[i] = 0;
	return d;
}
char* vpm_strcat (char* d, const char* s) { vpm_strcpy(d + vpm_strlen(d), s); return d; }
size_t vpm_strnlen (const char* s, size_t n)
{
	size_t i = 0;
	while (i < n && s[i]) ++i;
	return i;
}

// ---- character classes (C locale)
int vpm_isspace (int c) { return (c == 32) | ((unsigned) (c - 9) < 5); }
int vpm_isdigit (int c) { return (unsigned) (c - '0') < 10; }
int vpm_isxdigit (int c) { return ((unsigned) (c - '0') < 10) | ((unsigned) ((c | 32) - 'a') < 6); }
int vpm_isalpha (int c) { return (unsigned) ((c | 32) - 'a') < 26; }
int vpm_isalnum (int c) { return ((unsigned) ((c | 32) - 'a') < 26) | ((unsigned) (c - '0') < 10); }
int vpm_isupper (int c) { return (unsigned) (c - 'A') < 26; }
int vpm_islower (int c) { return (unsigned) (c - 'a') < 26; }
int vpm_isprint (int c) { return (unsigned) (c - 32) < 95; }
int vpm_isgraph (int c) { return (unsigned) (c - 33) < 94; }
int vpm_iscntrl (int c) { return ((unsigned) c < 32) | (c == 127); }
int vpm_isblank (int c) { return (c == 32) | (c == 9); }
int vpm_ispunct (int c) { return ((unsigned) (c - 33) < 94) & !(((unsigned) ((c | 32) - 'a') < 26) | ((unsigned) (c - '0') < 10)); }

// ---- locale
static char model_point[8] = ".", model_thousands[8] = "";
static struct lconv model_lconv;
struct lconv* vpm_localeconv ()
{
	model_lconv.decimal_point = model_point;
	model_lconv.thousands_sep = model_thousands;
	static char empty[1] = "";
	model_lconv.grouping = empty;
	return &model_lconv;
}
void vpm_set_locale (const char* p, const char* t)
{
	vpm_strcpy(model_point, p);
	vpm_strcpy(model_thousands, t);
}

// ---- numbers from text
// value of digit c in the base, or -1
static inline int digit (int c, int base)
{
	int v = -1;
	if ((unsigned) (c - '0') < 10) v = c - '0';
	else if (base > 10 && (unsigned) ((c | 32) - 'a') < 26) v = (c | 32) - 'a' + 10;
	if (v >= base) return -1;
	return v;
}
// unsigned magnitude, saturating flag
static const char* digits (const char* s, const char* end, int base, unsigned long& v, bool& over, bool& any)
{
	v = 0; over = false; any = false;
	unsigned n = 0;
	for (; s != end; ++s) {
		int d = digit((uc) *s, base);
		if (d < 0) break;
		any = true;
		++n;
		if (n <= 15) v = v * base + d;
		else {
			unsigned long m, a;
			if (__builtin_mul_overflow(v, (unsigned long) base, &m) || __builtin_add_overflow(m, (unsigned long) d, &a)) over = true;
			else v = a;
		}
	}
	return s;
}
static const char* NOEND = (const char*) ~0ul;

static const char* number (const char* s, const char* end, int base, unsigned long& v, bool& neg, bool& over, bool& any)
{
	const char* start = s;
	while (s != end && vpm_isspace((uc) *s)) ++s;
	neg = false; any = false; over = false; v = 0;
	if (s != end && *s == '-') { neg = true; ++s; }
	else if (s != end && *s == '+') ++s;
	if ((base == 16 || base == 0) && s != end && s[0] == '0' && s + 1 != end && (s[1] == 'x' || s[1] == 'X') && s + 2 != end && digit((uc) s[2], 16) >= 0) { s += 2; base = 16; }
	else if (base == 0) base = (s != end && *s == '0') ? 8 : 10;
	s = digits(s, end, base, v, over, any);
	return any ? s : start;
}
long vpm_strtol (const char* s, char** e, int base)
{
	unsigned long v; bool neg, over, any;
	const char* q = number(s, NOEND, base, v, neg, over, any);
	if (e) *e = (char*) q;
	if (neg) {
		if (over || v > (unsigned long) LONG_MAX + 1) { errno = ERANGE; return LONG_MIN; }
		return -(long) v;
	}
	if (over || v > LONG_MAX) { errno = ERANGE; return LONG_MAX; }
	return v;
}
unsigned long vpm_strtoul (const char* s, char** e, int base)
{
	unsigned long v; bool neg, over, any;
	const char* q = number(s, NOEND, base, v, neg, over, any);
	if (e) *e = (char*) q;
	if (over) { errno = ERANGE; return ULONG_MAX; }
	return neg ? -v : v;
}
long long vpm_strtoll (const char* s, char** e, int b) { return vpm_strtol(s, e, b); }
unsigned long long vpm_strtoull (const char* s, char** e, int b) { return vpm_strtoul(s, e, b); }
long vpm___isoc23_strtol (const char* s, char** e, int b) { return vpm_strtol(s, e, b); }
unsigned long vpm___isoc23_strtoul (const char* s, char** e, int b) { return vpm_strtoul(s, e, b); }
long long vpm___isoc23_strtoll (const char* s, char** e, int b) { return vpm_strtol(s, e, b); }
unsigned long long vpm___isoc23_strtoull (const char* s, char** e, int b) { return vpm_strtoul(s, e, b); }
int vpm_atoi (const char* s) { return vpm_strtol(s, nullptr, 10); }
long vpm_atol (const char* s) { return vpm_strtol(s, nullptr, 10); }
long long vpm_atoll (const char* s) { return vpm_strtol(s, nullptr, 10); }

static const double p10[] = { 1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22 };

// Decimal number at s (no leading space); what is consumed, or null.  Exact for up to 15 significant digits (the quotient of two
// exactly represented integers is correctly rounded); longer ones are made concrete and given to the library.
static const char* decimal (const char* s, const char* end, double& out, float& fout)
{
	const char* start = s;
	bool neg = false;
	if (s != end && *s == '-') { neg = true; ++s; }
	else if (s != end && *s == '+') ++s;
	if (s != end && (((uc) *s | 32) == 'i' || ((uc) *s | 32) == 'n')) {
		// inf, infinity, nan
		const char* w = ((uc) *s | 32) == 'i' ? "inf" : "nan";
		const char* q = s;
		while (*w && q != end && ((uc) *q | 32) == *w) { ++q; ++w; }
		if (*w) return nullptr;
		out = s[0] == 'i' || s[0] == 'I' ? HUGE_VAL : NAN;
		if (neg) out = -out;
		fout = out;
		return q;
	}
	if (s != end && s[0] == '0' && s + 1 != end && (s[1] == 'x' || s[1] == 'X')) {
		// made concrete and given to the library
		const char* q = s + 2;
		char b[64];
		size_t bn = 0;
		b[bn++] = '0'; b[bn++] = 'x';
		bool digit = false, point = false, expo = false;
		for (; q != end && bn < sizeof b - 1; ++q) {
			uc c = vp_concretize((uc) *q);
			if (!expo && ((c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'f'))) digit = true;
			else if (!expo && !point && c == (uc) model_point[0] && !model_point[1]) { point = true; c = '.'; }
			else if (!expo && digit && (c | 32) == 'p') expo = true;
			else if (expo && ((c >= '0' && c <= '9') || ((c == '+' || c == '-') && (b[bn - 1] | 32) == 'p'))) {}
			else break;
			b[bn++] = c;
		}
		b[bn] = 0;
		if (!digit) { out = 0; fout = 0; return s + 1; }
		out = vp_n_strtod(b); fout = vp_n_strtof(b);
		if (neg) { out = -out; fout = -fout; }
		if (expo && (b[bn - 1] | 32) == 'p') --q;
		return q;
	}
	unsigned long m = 0;
	unsigned nd = 0, frac = 0, total = 0;
	while (s != end && (unsigned) ((uc) *s - '0') < 10) { if (nd < 18) m = m * 10 + (*s - '0'); if (nd || *s != '0') ++nd; ++s; ++total; }
	const char* pt = model_point;
	bool point = true;
	size_t ptn = 0;
	for (; pt[ptn]; ++ptn) if (s + ptn == end || s[ptn] != pt[ptn]) { point = false; break; }
	if (point) {
		s += ptn;
		while (s != end && (unsigned) ((uc) *s - '0') < 10) { if (nd < 18) m = m * 10 + (*s - '0'); if (nd || *s != '0') ++nd; ++frac; ++s; ++total; }
	}
	if (total == 0) return nullptr;
	int ex = 0;
	if (s != end && (*s == 'e' || *s == 'E')) {
		const char* q = s + 1;
		bool en = false;
		if (q != end && *q == '-') { en = true; ++q; } else if (q != end && *q == '+') ++q;
		if (q != end && (unsigned) ((uc) *q - '0') < 10) {
			long x = 0;
			while (q != end && (unsigned) ((uc) *q - '0') < 10) { if (x < 100000) x = x * 10 + (*q - '0'); ++q; }
			x = vp_concretize(x);
			ex = en ? -x : x;
			s = q;
		}
	}
	int e10 = ex - (int) frac;
	if (nd <= 15 && e10 >= -22 && e10 <= 22) {
		double d = (double) (long) m;
		d = e10 < 0 ? d / p10[-e10] : d * p10[e10];
		out = neg ? -d : d;
		if (nd <= 7 && e10 >= -10 && e10 <= 10) {
			float f = (float) (int) m;
			f = e10 < 0 ? f / (float) p10[-e10] : f * (float) p10[e10];
			fout = neg ? -f : f;
		} else fout = (float) out;
		return s;
	}
	char* b = (char*) vp_n_new(s - start + 1);
	size_t bn = 0;
	for (const char* q = start; q != s; ++q) { char c = vp_concretize(*q); if (c == *pt) { c = '.'; q += strlen(pt) - 1; } b[bn++] = c; }
	b[bn] = 0;
	out = vp_n_strtod(b); fout = vp_n_strtof(b);
	return s;
}
double vpm_strtod (const char* s, char** e)
{
	const char* q = s;
	while (vpm_isspace((uc) *q)) ++q;
	double d = 0; float f = 0;
	q = decimal(q, NOEND, d, f);
	if (e) *e = (char*) (q ? q : s);
	return q ? d : 0;
}
float vpm_strtof (const char* s, char** e)
{
	const char* q = s;
	while (vpm_isspace((uc) *q)) ++q;
	double d = 0; float f = 0;
	q = decimal(q, NOEND, d, f);
	if (e) *e = (char*) (q ? q : s);
	return q ? f : 0;
}
double vpm_atof (const char* s) { return vpm_strtod(s, nullptr); }

static int scan (const char* s, const char* fmt, uint64_t* arr, int n)
{
	int got = 0, a = 0;
	const char* p = s;
	for (; *fmt; ++fmt) {
		if (vpm_isspace((uc) *fmt)) { while (vpm_isspace((uc) *p)) ++p; continue; }
		if (*fmt != '%') {
			if (!*p) return got ? got : -1;
			if (*p != *fmt) return got;
			++p;
			continue;
		}
		++fmt;
		if (*fmt == '%') {
			while (vpm_isspace((uc) *p)) ++p;
			if (!*p) return got ? got : -1;
			if (*p != '%') return got;
			++p;
			continue;
		}
		bool skip = false;
		if (*fmt == '*') { skip = true; ++fmt; }
		int width = 0;
		while (*fmt >= '0' && *fmt <= '9') width = width * 10 + (*fmt++ - '0');
		int size = 4;
		if (*fmt == 'h') { size = 2; ++fmt; if (*fmt == 'h') { size = 1; ++fmt; } }
		else if (*fmt == 'l') { size = 8; ++fmt; if (*fmt == 'l') ++fmt; }
		else if (*fmt == 'z' || *fmt == 'j' || *fmt == 't' || *fmt == 'q') { size = 8; ++fmt; }
		void* dst = (skip || a >= n) ? nullptr : (void*) arr[a];
		char c = *fmt;
		if (c == 'n') { if (dst) { *(int*) dst = p - s; ++a; } continue; }
		if (c != 'c' && c != '[') while (vpm_isspace((uc) *p)) ++p;
		if (!*p) return got ? got : -1;
		// end of the field
		const char* lim = p;
		if (width) { int k = 0; while (k < width && *lim) { ++lim; ++k; } } else lim = NOEND;
		switch (c) {
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
			unsigned long v; bool neg, over, any;
			const char* q = number(p, lim, c == 'd' || c == 'u' ? 10 : c == 'i' ? 0 : c == 'o' ? 8 : 16, v, neg, over, any);
			if (!any) return got;
			// (unlike strtol(), scanf() does not go back to the 0 of a 0x without digits)
			if ((c == 'x' || c == 'X' || c == 'i') && q != lim && (*q == 'x' || *q == 'X') && q[-1] == '0' && q - p == (*p == '+' || *p == '-' ? 2 : 1)) ++q;
			p = q;
			long r;
			if (c == 'd' || c == 'i') {
				if (neg) r = (over || v > (unsigned long) LONG_MAX + 1) ? LONG_MIN : -(long) v;
				else r = (over || v > LONG_MAX) ? LONG_MAX : (long) v;
			} else r = over ? -1l : neg ? -(long) v : (long) v;
			if (dst) {
				if (size == 8) *(long*) dst = r; else if (size == 4) *(int*) dst = r; else if (size == 2) *(short*) dst = r; else *(char*) dst = r;
			}
			break;
		}
		case 'f': case 'g': case 'e': case 'E': case 'G': case 'a': {
			double d; float f;
			const char* q = decimal(p, lim, d, f);
			if (!q) return got;
			// (unlike strtof(), scanf() does not go back to the 0 of a 0x without digits)
			if (q != lim && (*q == 'x' || *q == 'X') && q[-1] == '0' && q - p == (*p == '+' || *p == '-' ? 2 : 1)) return got;
			p = q;
			if (dst) { if (size == 8) *(double*) dst = d; else *(float*) dst = f; }
			break;
		}
		case 's': {
			char* o = (char*) dst;
			while (p != lim && *p && !vpm_isspace((uc) *p)) { if (o) *o++ = *p; ++p; }
			if (o) *o = 0;
			break;
		}
		case 'c': {
			char* o = (char*) dst;
			int k = width ? width : 1;
			while (k-- > 0) { if (!*p) return got ? got : -1; if (o) *o++ = *p; ++p; }
			break;
		}
		case '[': {
			++fmt;
			bool inv = false, set[256] = {};
			if (*fmt == '^') { inv = true; ++fmt; }
			const char* b = fmt;
			while (*fmt && (*fmt != ']' || fmt == b)) {
				if (fmt[1] == '-' && fmt[2] && fmt[2] != ']') { for (int k = (uc) fmt[0]; k <= (uc) fmt[2]; ++k) set[k] = true; fmt += 3; }
				else set[(uc) *fmt++] = true;
			}
			char* o = (char*) dst;
			bool any = false;
			while (p != lim && *p && (set[(uc) *p] != inv)) { any = true; if (o) *o++ = *p; ++p; }
			if (!any) return got;
			if (o) *o = 0;
			break;
		}
		default:
			vp_n_unsupported("scanf conversion");
		}
		if (!skip) { ++got; ++a; }
	}
	return got;
}
int vpm_va_sscanf (const char* s, const char* fmt, uint64_t* arr, int n) { return scan(s, fmt, arr, n); }
int vpm_va___isoc99_sscanf (const char* s, const char* fmt, uint64_t* arr, int n) { return scan(s, fmt, arr, n); }
int vpm_va___isoc23_sscanf (const char* s, const char* fmt, uint64_t* arr, int n) { return scan(s, fmt, arr, n); }

// ---- text from numbers
struct Out { char* p; size_t n, k; };
static inline void put (Out& o, char c) { if (o.k + 1 < o.n) o.p[o.k] = c; ++o.k; }

static int format (char* buf, size_t n, const char* fmt, uint64_t* arr, int cnt)
{
	Out o = {buf, n, 0};
	int a = 0;
	for (; *fmt; ++fmt) {
		if (*fmt != '%') { put(o, *fmt); continue; }
		const char* spec = fmt++;
		if (*fmt == '%') { put(o, '%'); continue; }
		bool left = false, zero = false, plus = false, space = false, alt = false;
		for (;; ++fmt) {
			if (*fmt == '-') left = true; else if (*fmt == '0') zero = true; else if (*fmt == '+') plus = true; else if (*fmt == ' ') space = true; else if (*fmt == '#') alt = true; else break;
		}
		int width = 0, prec = -1;
		if (*fmt == '*') { width = (int) vp_concretize(arr[a++]); ++fmt; if (width < 0) { left = true; width = -width; } }
		else while (*fmt >= '0' && *fmt <= '9') width = width * 10 + (*fmt++ - '0');
		if (*fmt == '.') {
			++fmt; prec = 0;
			if (*fmt == '*') { prec = (int) vp_concretize(arr[a++]); ++fmt; }
			else while (*fmt >= '0' && *fmt <= '9') prec = prec * 10 + (*fmt++ - '0');
		}
		int size = 4;
		if (*fmt == 'h') { size = 2; ++fmt; if (*fmt == 'h') { size = 1; ++fmt; } }
		else if (*fmt == 'l') { size = 8; ++fmt; if (*fmt == 'l') ++fmt; }
		else if (*fmt == 'z' || *fmt == 'j' || *fmt == 't') { size = 8; ++fmt; }
		else if (*fmt == 'L') vp_n_unsupported("long double");
		uint64_t v = a < cnt ? arr[a] : 0;
		++a;
		switch (*fmt) {
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
			unsigned base = *fmt == 'x' || *fmt == 'X' ? 16 : *fmt == 'o' ? 8 : 10;
			bool neg = false;
			uint64_t m;
			if (*fmt == 'd' || *fmt == 'i') {
				int64_t s = size == 8 ? (int64_t) v : size == 4 ? (int64_t) (int) v : size == 2 ? (int64_t) (short) v : (int64_t) (signed char) v;
				neg = s < 0;
				m = neg ? 0 - (uint64_t) s : (uint64_t) s;
			} else m = size == 8 ? v : size == 4 ? (uint64_t) (unsigned) v : size == 2 ? (uint64_t) (unsigned short) v : (uint64_t) (uc) v;
			char d[72];
			int k = 0;
			uint64_t lim = 1;
			bool big = false;
			// number of digits: compare with powers of the base
			int nd = 1;
			while (!big) {
				uint64_t nl;
				if (__builtin_mul_overflow(lim, (uint64_t) base, &nl)) { big = true; break; }
				if (m < nl) break;
				lim = nl;
				++nd;
			}
			uint64_t pw = 1;
			for (k = 0; k < nd; ++k) {
				unsigned g = (m / pw) % base;
				d[k] = g < 10 ? '0' + g : (*fmt == 'X' ? 'A' : 'a') + (g - 10);
				pw *= base;
			}
			if (prec == 0 && m == 0) k = 0;
			while (k < prec) d[k++] = '0';
			char pre[3]; int np = 0;
			if (neg) pre[np++] = '-'; else if (plus && (*fmt == 'd' || *fmt == 'i')) pre[np++] = '+'; else if (space && (*fmt == 'd' || *fmt == 'i')) pre[np++] = ' ';
			if (alt && base == 16 && m != 0) { pre[np++] = '0'; pre[np++] = *fmt; }
			int fill = width - k - np;
			if (!left && !(zero && prec < 0)) while (fill-- > 0) put(o, ' ');
			for (int i = 0; i < np; ++i) put(o, pre[i]);
			if (!left && zero && prec < 0) while (fill-- > 0) put(o, '0');
			while (k > 0) put(o, d[--k]);
			if (left) while (fill-- > 0) put(o, ' ');
			break;
		}
		case 'c': {
			int fill = width - 1;
			if (!left) while (fill-- > 0) put(o, ' ');
			put(o, (char) v);
			if (left) while (fill-- > 0) put(o, ' ');
			break;
		}
		case 's': {
			const char* s = (const char*) v;
			if (!s) s = "(null)";
			size_t k = prec >= 0 ? vpm_strnlen(s, prec) : vpm_strlen(s);
			int fill = width - (int) k;
			if (!left) while (fill-- > 0) put(o, ' ');
			for (size_t i = 0; i < k; ++i) put(o, s[i]);
			if (left) while (fill-- > 0) put(o, ' ');
			break;
		}
		case 'p': case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': case 'a': {
			v = vp_concretize(v);
			char sp[64], b[512];
			size_t k = 0;
			sp[k++] = '%';
			if (left) sp[k++] = '-';
			if (zero) sp[k++] = '0';
			if (plus) sp[k++] = '+';
			if (space) sp[k++] = ' ';
			if (alt) sp[k++] = '#';
			sp[k] = 0;
			(void) spec;
			int m = vp_n_fmt_double(b, sizeof b, sp, width, prec, *fmt, v);
			for (int i = 0; i < m && i < (int) sizeof b - 1; ++i) put(o, b[i] == '.' && *fmt != 'p' ? model_point[0] : b[i]);
			break;
		}
		default:
			vp_n_unsupported("printf conversion");
		}
	}
	if (n) buf[o.k < n ? o.k : n - 1] = 0;
	return o.k;
}
int vpm_va_snprintf (char* b, size_t n, const char* fmt, uint64_t* arr, int cnt) { return format(b, n, fmt, arr, cnt); }
int vpm_va_sprintf (char* b, const char* fmt, uint64_t* arr, int cnt) { return format(b, (size_t) 1 << 40, fmt, arr, cnt); }
int vpm_va_printf (const char*, uint64_t*, int) { return 0; }

// ---- mathematics (function forms of what the pass treats as intrinsics)
double vpm_rint (double x) { return __builtin_elementwise_rint(x); }
double vpm_nearbyint (double x) { return __builtin_elementwise_rint(x); }
double vpm_floor (double x) { return __builtin_elementwise_floor(x); }
double vpm_ceil (double x) { return __builtin_elementwise_ceil(x); }
double vpm_trunc (double x) { return __builtin_elementwise_trunc(x); }
double vpm_round (double x) { return __builtin_elementwise_round(x); }
float vpm_rintf (float x) { return __builtin_elementwise_rint(x); }
float vpm_nearbyintf (float x) { return __builtin_elementwise_rint(x); }
float vpm_floorf (float x) { return __builtin_elementwise_floor(x); }
float vpm_ceilf (float x) { return __builtin_elementwise_ceil(x); }
float vpm_truncf (float x) { return __builtin_elementwise_trunc(x); }
float vpm_roundf (float x) { return __builtin_elementwise_round(x); }
long vpm_lrint (double x) { return __builtin_elementwise_rint(x); }
long long vpm_llrint (double x) { return __builtin_elementwise_rint(x); }
long vpm_lround (double x) { return __builtin_elementwise_round(x); }
long long vpm_llround (double x) { return __builtin_elementwise_round(x); }
long vpm_lrintf (float x) { return __builtin_elementwise_rint(x); }
long vpm_lroundf (float x) { return __builtin_elementwise_round(x); }
double vpm_fabs (double x) { return __builtin_elementwise_abs(x); }
float vpm_fabsf (float x) { return __builtin_elementwise_abs(x); }
double vpm_fmod (double x, double y)
{
	// non-negative finite arguments with an exactly representable quotient are all that is needed
	return vp_n_fmod(x, y);
}

// ---- allocation
void* vpm_malloc (size_t n) { n = vp_concretize(n); void* p = vp_n_malloc(n); if (p) vp_rt_alloc(p, n); return p; }
void* vpm_calloc (size_t a, size_t b) { size_t n = vp_concretize(a * b); void* p = vp_n_calloc(n); if (p) vp_rt_alloc(p, n); return p; }
void* vpm_realloc (void* q, size_t n)
{
	n = vp_concretize(n);
	void* p = vp_n_malloc(n);
	if (!p) return p;
	vp_rt_alloc(p, n);
	if (q) { size_t old = vp_n_usable(q); memcpy(p, q, old < n ? old : n); vp_n_free(q); }
	return p;
}
void* vpm__Znwm (size_t n) { n = vp_concretize(n); void* p = vp_n_new(n); vp_rt_alloc(p, n); return p; }
void* vpm__Znam (size_t n) { n = vp_concretize(n); void* p = vp_n_new(n); vp_rt_alloc(p, n); return p; }
void* vpm__ZnwmRKSt9nothrow_t (size_t n, std::nothrow_t const&) { n = vp_concretize(n); void* p = vp_n_malloc(n); if (p) vp_rt_alloc(p, n); return p; }
void* vpm__ZnamRKSt9nothrow_t (size_t n, std::nothrow_t const&) { n = vp_concretize(n); void* p = vp_n_malloc(n); if (p) vp_rt_alloc(p, n); return p; }
void* vpm___cxa_allocate_exception (size_t n) { n = vp_concretize(n); void* p = vp_n_exception(n); vp_rt_alloc(p, n); return p; }
char* vpm_strdup (const char* s) { size_t n = vpm_strlen(s) + 1; char* p = (char*) vpm_malloc(n); memcpy(p, s, n); return p; }

// std::runtime_error::runtime_error (std::string const&): the library's object with the text's shadow
void vpm__ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE (void* self, std::string const& s)
{
	char* what = (char*) vp_n_runtime_error(self, s.data(), s.size());
	memcpy(what, s.data(), s.size());
}
void vpm__ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE (void* self, std::string const& s)
{
	char* what = (char*) vp_n_runtime_error(self, s.data(), s.size());
	memcpy(what, s.data(), s.size());
}

// ... and (char const*)
void vpm__ZNSt13runtime_errorC1EPKc (void* self, const char* s)
{
	size_t n = vpm_strlen(s);
	char* what = (char*) vp_n_runtime_error(self, s, n);
	memcpy(what, s, n);
}
void vpm__ZNSt13runtime_errorC2EPKc (void* self, const char* s)
{
	size_t n = vpm_strlen(s);
	char* what = (char*) vp_n_runtime_error(self, s, n);
	memcpy(what, s, n);
}

// ---- files: an in-memory file system
struct VNode { char path[512]; uc* data; size_t n, cap; bool exists; };
static VNode nodes[32];
static int nnodes;
struct VFile { VNode* node; size_t pos; bool rd, wr, append, eof, err; int back; };

static VNode* find (const char* path, bool create)
{
	size_t k = vpm_strlen(path);
	for (int i = 0; i < nnodes; ++i) if (vpm_strlen(nodes[i].path) == k && vpm_bcmp(nodes[i].path, path, k) == 0) return nodes[i].exists || create ? &nodes[i] : nullptr;
	if (!create || nnodes == 32 || k >= 512) return nullptr;
	VNode* v = &nodes[nnodes++];
	memcpy(v->path, path, k + 1);
	v->data = nullptr; v->n = v->cap = 0; v->exists = false;
	return v;
}
static void grow (VNode* v, size_t n)
{
	if (n <= v->cap) return;
	size_t c = v->cap ? v->cap : 1024;
	while (c < n) c *= 2;
	uc* d = (uc*) vpm_malloc(c);
	if (v->n) memcpy(d, v->data, v->n);
	v->data = d; v->cap = c;
}
void vpm_vfs_put (const char* path, const void* data, size_t n)
{
	VNode* v = find(path, true);
	grow(v, n + 1);
	v->n = n; v->exists = true;
	memcpy(v->data, data, n);
}
long vpm_vfs_size (const char* path) { VNode* v = find(path, false); return v ? (long) v->n : -1; }
const uc* vpm_vfs_data (const char* path) { VNode* v = find(path, false); return v ? v->data : nullptr; }

static VFile* vopen (const char* path, bool rd, bool wr, bool app, bool trunc, bool create)
{
	VNode* v = find(path, create);
	if (!v) { errno = ENOENT; return nullptr; }
	if (!v->exists) { v->exists = true; v->n = 0; }
	if (trunc) v->n = 0;
	VFile* f = (VFile*) vpm_malloc(sizeof(VFile));
	f->node = v; f->pos = 0; f->rd = rd; f->wr = wr; f->append = app; f->eof = f->err = false; f->back = -1;
	return f;
}
static size_t vread (VFile* f, void* p, size_t n)
{
	size_t k = f->pos < f->node->n ? f->node->n - f->pos : 0;
	if (k < n) f->eof = true; else k = n;
	if (k) memcpy(p, f->node->data + f->pos, k);
	f->pos += k;
	return k;
}
static size_t vwrite (VFile* f, const void* p, size_t n)
{
	if (!f->wr) { f->err = true; return 0; }
	if (f->append) f->pos = f->node->n;
	grow(f->node, f->pos + n);
	while (f->node->n < f->pos) f->node->data[f->node->n++] = 0;
	if (n) memcpy(f->node->data + f->pos, p, n);
	f->pos += n;
	if (f->pos > f->node->n) f->node->n = f->pos;
	return n;
}
FILE* vpm_fopen (const char* path, const char* mode)
{
	bool plus = vpm_strchr(mode, '+') != nullptr;
	switch (mode[0]) {
	case 'r': return (FILE*) vopen(path, true, plus, false, false, false);
	case 'w': return (FILE*) vopen(path, plus, true, false, true, true);
	case 'a': return (FILE*) vopen(path, plus, true, true, false, true);
	}
	return nullptr;
}
FILE* vpm_fopen64 (const char* path, const char* mode) { return vpm_fopen(path, mode); }
int vpm_fclose (FILE* f) { (void) f; return 0; }
static inline VFile* vf (FILE* f) { return (VFile*) f; }
int vpm_fgetc (FILE* f)
{
	uc c;
	if (vf(f)->back >= 0) { int r = vf(f)->back; vf(f)->back = -1; return r; }
	if (vread(vf(f), &c, 1) != 1) return -1;
	return c;
}
int vpm_getc (FILE* f) { return vpm_fgetc(f); }
int vpm_ungetc (int c, FILE* f) { vf(f)->back = c; vf(f)->eof = false; return c; }
char* vpm_fgets (char* b, int n, FILE* f)
{
	int k = 0;
	if (n < 1) return nullptr;
	while (k + 1 < n) {
		int c = vpm_fgetc(f);
		if (c < 0) break;
		b[k++] = c;
		if (c == '\n') break;
	}
	if (k == 0 && n > 1) return nullptr;
	b[k] = 0;
	return b;
}
size_t vpm_fread (void* p, size_t s, size_t n, FILE* f)
{
	s = vp_concretize(s); n = vp_concretize(n);
	if (!s || !n) return 0;
	return vread(vf(f), p, s * n) / s;
}
size_t vpm_fwrite (const void* p, size_t s, size_t n, FILE* f)
{
	s = vp_concretize(s); n = vp_concretize(n);
	if (!s || !n) return 0;
	if (vp_n_stdstream(f)) return n;
	return vwrite(vf(f), p, s * n) / s;
}
int vpm_fputs (const char* s, FILE* f) { if (vp_n_stdstream(f)) return 0; vwrite(vf(f), s, vpm_strlen(s)); return 1; }
int vpm_fputc (int c, FILE* f) { if (vp_n_stdstream(f)) return c; uc x = c; vwrite(vf(f), &x, 1); return x; }
int vpm_putc (int c, FILE* f) { return vpm_fputc(c, f); }
int vpm_putchar (int c) { return c; }
int vpm_puts (const char*) { return 1; }
int vpm_fflush (FILE*) { return 0; }
int vpm_va_fprintf (FILE* f, const char* fmt, uint64_t* arr, int cnt)
{
	if (vp_n_stdstream(f)) return 0;
	static char b[65536];
	int n = format(b, sizeof b, fmt, arr, cnt);
	vwrite(vf(f), b, n);
	return n;
}
int vpm_feof (FILE* f) { return vf(f)->eof; }
int vpm_ferror (FILE* f) { return vf(f)->err; }
void vpm_clearerr (FILE* f) { vf(f)->eof = vf(f)->err = false; }
static int vseek (VFile* f, long off, int wh)
{
	long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long) f->pos : (long) f->node->n;
	if (b + off < 0) { errno = EINVAL; return -1; }
	f->pos = vp_concretize(b + off); f->eof = false; f->back = -1;
	return 0;
}
int vpm_fseek (FILE* f, long off, int wh) { return vseek(vf(f), off, wh); }
int vpm_fseeko (FILE* f, long off, int wh) { return vseek(vf(f), off, wh); }
int vpm_fseeko64 (FILE* f, long off, int wh) { return vseek(vf(f), off, wh); }
long vpm_ftell (FILE* f) { return vf(f)->pos; }
long vpm_ftello (FILE* f) { return vf(f)->pos; }
long vpm_ftello64 (FILE* f) { return vf(f)->pos; }
void vpm_rewind (FILE* f) { vseek(vf(f), 0, SEEK_SET); }
ssize_t vpm_getline (char** b, size_t* cap, FILE* f)
{
	size_t k = 0, c = 0;
	char* o = nullptr;
	while (true) {
		int x = vpm_fgetc(f);
		if (k + 2 > c) { c = c ? c * 2 : 128; o = (char*) vpm_realloc(o, c); }
		if (x < 0) break;
		o[k++] = x;
		if (x == '\n') break;
	}
	if (k == 0) return -1;
	o[k] = 0;
	*b = o; *cap = c;
	return k;
}
void vpm_perror (const char*) {}

// std::__basic_file<char>: {FILE*, bool}
struct BF { VFile* f; bool created; };
void vpm__ZNSt12__basic_fileIcEC1EP15pthread_mutex_t (BF* b, void*) { b->f = nullptr; b->created = false; }
void vpm__ZNSt12__basic_fileIcEC2EP15pthread_mutex_t (BF* b, void*) { b->f = nullptr; b->created = false; }
void vpm__ZNSt12__basic_fileIcED1Ev (BF* b) { b->f = nullptr; }
void vpm__ZNSt12__basic_fileIcED2Ev (BF* b) { b->f = nullptr; }
BF* vpm__ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei (BF* b, const char* name, int mode, int)
{
	if (b->f) return nullptr;
	bool in = mode & std::ios_base::in, out = mode & std::ios_base::out, trunc = mode & std::ios_base::trunc, app = mode & std::ios_base::app;
	if (!in && !out && !app) return nullptr;
	bool create = app || (out && (!in || trunc));
	b->f = vopen(name, in, out || app, app, trunc || (out && !in && !app), create);
	if (!b->f) return nullptr;
	b->created = true;
	if (mode & std::ios_base::ate) vseek(b->f, 0, SEEK_END);
	return b;
}
BF* vpm__ZNSt12__basic_fileIcE5closeEv (BF* b) { if (!b->f) return nullptr; b->f = nullptr; return b; }
bool vpm__ZNKSt12__basic_fileIcE7is_openEv (BF* b) { return b->f != nullptr; }
long vpm__ZNSt12__basic_fileIcE6xsgetnEPcl (BF* b, char* p, long n) { return vread(b->f, p, vp_concretize(n)); }
long vpm__ZNSt12__basic_fileIcE6xsputnEPKcl (BF* b, const char* p, long n) { return vwrite(b->f, p, vp_concretize(n)); }
long vpm__ZNSt12__basic_fileIcE8xsputn_2EPKclS2_l (BF* b, const char* p, long n, const char* q, long m) { return vwrite(b->f, p, vp_concretize(n)) + vwrite(b->f, q, vp_concretize(m)); }
long vpm__ZNSt12__basic_fileIcE7seekoffElSt12_Ios_Seekdir (BF* b, long off, int dir)
{
	if (vseek(b->f, off, dir == std::ios_base::beg ? SEEK_SET : dir == std::ios_base::cur ? SEEK_CUR : SEEK_END)) return -1;
	return b->f->pos;
}
int vpm__ZNSt12__basic_fileIcE4syncEv (BF*) { return 0; }
long vpm__ZNSt12__basic_fileIcE9showmanycEv (BF* b) { return b->f->node->n > b->f->pos ? b->f->node->n - b->f->pos : 0; }

// ---- std::getline and operator>>
std::istream& vpm__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_ (std::istream& in, std::string& s, char delim)
{
	std::ios_base::iostate err = std::ios_base::goodbit;
	bool any = false;
	std::istream::sentry ok(in, true);
	if (ok) {
		s.erase();
		int c = in.rdbuf()->sgetc();
		while (c != -1 && (char) c != delim) {
			s += (char) c;
			any = true;
			c = in.rdbuf()->snextc();
		}
		if (c == -1) err |= std::ios_base::eofbit;
		else { any = true; in.rdbuf()->sbumpc(); }
	}
	if (!any) err |= std::ios_base::failbit;
	if (err) in.setstate(err);
	return in;
}
std::istream& vpm__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE (std::istream& in, std::string& s)
{
	return vpm__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_(in, s, '\n');
}
std::istream& vpm__ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE (std::istream& in, std::string& s)
{
	std::istream::sentry ok(in, false);
	bool any = false;
	std::ios_base::iostate err = std::ios_base::goodbit;
	if (ok) {
		s.erase();
		int c = in.rdbuf()->sgetc();
		while (c != -1 && !vpm_isspace(c)) { s += (char) c; any = true; c = in.rdbuf()->snextc(); }
		if (c == -1) err |= std::ios_base::eofbit;
	}
	if (!any) err |= std::ios_base::failbit;
	if (err) in.setstate(err);
	return in;
}
std::istream& vpm__ZNSi6ignoreEli (std::istream& in, long n, int delim)
{
	std::istream::sentry ok(in, true);
	if (ok) {
		for (long i = 0; i < n || n == LONG_MAX; ++i) {
			int c = in.rdbuf()->sbumpc();
			if (c == -1) { in.setstate(std::ios_base::eofbit); break; }
			if (c == delim) break;
		}
	}
	return in;
}
std::istream& vpm__ZNSi6ignoreEl (std::istream& in, long n) { return vpm__ZNSi6ignoreEli(in, n, -1); }
std::istream& vpm__ZNSi6ignoreEv (std::istream& in) { return vpm__ZNSi6ignoreEli(in, 1, -1); }

// ---- boost::filesystem
static void file_name (std::string const& s, size_t& from, size_t& to)
{
	to = s.size();
	from = to;
	while (from > 0 && s[from - 1] != '/') --from;
}
boost::filesystem::path vpm__ZN5boost10filesystem6detail15path_algorithms12extension_v3ERKNS0_4pathE (boost::filesystem::path const& p)
{
	std::string const& s = p.native();
	size_t a, b;
	file_name(s, a, b);
	std::string n = s.substr(a, b - a);
	if (n == "." || n == "..") return boost::filesystem::path();
	for (size_t i = n.size(); i-- > 0;) if (n[i] == '.') return boost::filesystem::path(n.substr(i));
	return boost::filesystem::path();
}
boost::filesystem::path vpm__ZN5boost10filesystem6detail15path_algorithms7stem_v3ERKNS0_4pathE (boost::filesystem::path const& p)
{
	std::string const& s = p.native();
	size_t a, b;
	file_name(s, a, b);
	std::string n = s.substr(a, b - a);
	if (n == "." || n == "..") return boost::filesystem::path(n);
	for (size_t i = n.size(); i-- > 0;) if (n[i] == '.') return boost::filesystem::path(n.substr(0, i));
	return boost::filesystem::path(n);
}
boost::filesystem::path vpm__ZN5boost10filesystem6detail15path_algorithms11filename_v3ERKNS0_4pathE (boost::filesystem::path const& p)
{
	std::string const& s = p.native();
	size_t a, b;
	file_name(s, a, b);
	return boost::filesystem::path(s.substr(a, b - a));
}

// wide characters
int vpm_wmemcmp (const wchar_t* a, const wchar_t* b, size_t n)
{
	for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
	return 0;
}
size_t vpm_wcslen (const wchar_t* s) { size_t i = 0; while (s[i]) ++i; return i; }
wchar_t* vpm_wmemchr (const wchar_t* s, wchar_t c, size_t n)
{
	for (size_t i = 0; i < n; ++i) if (s[i] == c) return (wchar_t*) s + i;
	return nullptr;
}
}

// ---- numbers to streams (std::ostream::_M_insert)
static std::ostream* put_number (std::ostream* o, bool neg, uint64_t m, bool is_signed)
{
	if (!o->good()) { o->setstate(std::ios_base::failbit); return o; }
	if (o->tie()) o->tie()->flush();
	std::ios_base::fmtflags const f = o->flags();
	unsigned base = (f & std::ios_base::basefield) == std::ios_base::hex ? 16 : (f & std::ios_base::basefield) == std::ios_base::oct ? 8 : 10;
	bool up = f & std::ios_base::uppercase;
	int nd = 1;
	uint64_t lim = 1;
	for (;;) {
		uint64_t nl;
		if (__builtin_mul_overflow(lim, (uint64_t) base, &nl) || m < nl) break;
		lim = nl;
		++nd;
	}
	char d[96];
	int k = 0;
	uint64_t pw = 1;
	for (; k < nd; ++k) {
		unsigned g = (m / pw) % base;
		d[k] = g < 10 ? '0' + g : (up ? 'A' : 'a') + (g - 10);
		pw *= base;
	}
	char pre[3]; int np = 0;
	if (base == 10 && neg) pre[np++] = '-';
	else if (base == 10 && is_signed && (f & std::ios_base::showpos)) pre[np++] = '+';
	if (base != 10 && (f & std::ios_base::showbase) && m != 0) { pre[np++] = '0'; if (base == 16) pre[np++] = up ? 'X' : 'x'; }
	int fill = (int) o->width() - k - np;
	o->width(0);
	char c = o->fill();
	std::ios_base::fmtflags adj = f & std::ios_base::adjustfield;
	std::streambuf* b = o->rdbuf();
	if (adj != std::ios_base::left && adj != std::ios_base::internal) while (fill-- > 0) b->sputc(c);
	for (int i = 0; i < np; ++i) b->sputc(pre[i]);
	if (adj == std::ios_base::internal) while (fill-- > 0) b->sputc(c);
	while (k > 0) b->sputc(d[--k]);
	if (adj == std::ios_base::left) while (fill-- > 0) b->sputc(c);
	return o;
}
static std::ostream* put_signed (std::ostream* o, int64_t v)
{
	// in other bases the bit pattern is printed
	bool dec = (o->flags() & std::ios_base::basefield) != std::ios_base::hex && (o->flags() & std::ios_base::basefield) != std::ios_base::oct;
	if (dec && v < 0) return put_number(o, true, 0 - (uint64_t) v, true);
	return put_number(o, false, v, true);
}
extern "C" {
std::ostream* vpm__ZNSo9_M_insertIlEERSoT_ (std::ostream* o, long v) { return put_signed(o, v); }
std::ostream* vpm__ZNSo9_M_insertIxEERSoT_ (std::ostream* o, long long v) { return put_signed(o, v); }
std::ostream* vpm__ZNSo9_M_insertImEERSoT_ (std::ostream* o, unsigned long v) { return put_number(o, false, v, false); }
std::ostream* vpm__ZNSo9_M_insertIyEERSoT_ (std::ostream* o, unsigned long long v) { return put_number(o, false, v, false); }
std::ostream* vpm__ZNSo9_M_insertIbEERSoT_ (std::ostream* o, bool v)
{
	if (o->flags() & std::ios_base::boolalpha) { bool b = vp_concretize(v); o->write(b ? "true" : "false", b ? 4 : 5); return o; }
	return put_number(o, false, v, true);
}
}
