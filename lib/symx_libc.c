/* The part of libc the encoded code calls, for symx (which executes it like
 * any other code). Written to the C standard; compiled with -fno-builtin. */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>

size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) {
	while (*a && *a == *b) { a++; b++; }
	return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n) {
	while (n > 0 && *a && *a == *b) { a++; b++; n--; }
	return n == 0 ? 0 : (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int memcmp(const void *a, const void *b, size_t n) {
	const unsigned char *x = a, *y = b;
	size_t i;
	for (i = 0; i < n; i++) if (x[i] != y[i]) return (int)x[i] - (int)y[i];
	return 0;
}
/* Character classes without branches, so that symbolic text does not fork */
static unsigned within(int c, unsigned lo, unsigned hi) { return (unsigned)c - lo <= hi - lo; }
int tolower(int c) { return c + (int)(within(c, 'A', 'Z') << 5); }
int toupper(int c) { return c - (int)(within(c, 'a', 'z') << 5); }
int isdigit(int c) { return (int)within(c, '0', '9'); }
int isxdigit(int c) { return (int)(within(c, '0', '9') | within(c, 'a', 'f') | within(c, 'A', 'F')); }
int isspace(int c) { return (int)((c == ' ') | within(c, 9, 13)); }
int isalpha(int c) { return (int)(within(c, 'a', 'z') | within(c, 'A', 'Z')); }
int isupper(int c) { return (int)within(c, 'A', 'Z'); }
int islower(int c) { return (int)within(c, 'a', 'z'); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int strcasecmp(const char *a, const char *b) {
	while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; }
	return tolower((unsigned char)*a) - tolower((unsigned char)*b);
}
int strncasecmp(const char *a, const char *b, size_t n) {
	while (n > 0 && *a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; n--; }
	return n == 0 ? 0 : tolower((unsigned char)*a) - tolower((unsigned char)*b);
}
char *strchr(const char *s, int c) {
	for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return NULL; }
}
char *strrchr(const char *s, int c) {
	const char *r = NULL;
	for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; }
}
void *memchr(const void *s, int c, size_t n) {
	const unsigned char *p = s;
	for (; n > 0; n--, p++) if (*p == (unsigned char)c) return (void*)p;
	return NULL;
}
char *strstr(const char *h, const char *n) {
	size_t i;
	for (;; h++) {
		for (i = 0; n[i] && h[i] == n[i]; i++);
		if (!n[i]) return (char*)h;
		if (!*h) return NULL;
	}
}
char *strcpy(char *d, const char *s) { size_t i = 0; do { d[i] = s[i]; } while (s[i++]); return d; }
char *strncpy(char *d, const char *s, size_t n) {
	size_t i;
	for (i = 0; i < n && s[i]; i++) d[i] = s[i];
	for (; i < n; i++) d[i] = 0;
	return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) {
	size_t k = strlen(d), i;
	for (i = 0; i < n && s[i]; i++) d[k + i] = s[i];
	d[k + i] = 0;
	return d;
}
void *malloc(size_t);
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *d = malloc(n); strcpy(d, s); return d; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
static char *tokNext;
char *strtok(char *s, const char *d) {
	char *r;
	if (s == NULL) s = tokNext;
	if (s == NULL) return NULL;
	s += strspn(s, d);
	if (!*s) { tokNext = NULL; return NULL; }
	r = s;
	s += strcspn(s, d);
	if (*s) { *s = 0; tokNext = s + 1; } else tokNext = NULL;
	return r;
}
int abs(int v) { return v < 0 ? (int)(0u - (unsigned)v) : v; }
long labs(long v) { return v < 0 ? -v : v; }
static unsigned digit(int c) {
	unsigned n = within(c, '0', '9'), l = within(c, 'a', 'z'), u = within(c, 'A', 'Z');
	return ((0u - n) & ((unsigned)c - '0')) | ((0u - l) & ((unsigned)c - 'a' + 10)) | ((0u - u) & ((unsigned)c - 'A' + 10)) | ((0u - (1u & ~(n | l | u))) & 99u);
}
#define LIMMAX 9223372036854775807LL
static unsigned long long conv(const char *s, char **e, int base, int *neg, int *over) {
	const char *st = s;
	unsigned long long v = 0, q;
	unsigned r;
	int any = 0;
	*neg = 0; *over = 0;
	while (isspace((unsigned char)*s)) s++;
	if ((*s == '-') | (*s == '+')) { *neg = *s == '-'; s++; }
	if ((base == 0 || base == 16) && *s) {
		if ((*s == '0') & ((s[1] | 32) == 'x')) {
			if (digit(s[2]) < 16) { s += 2; base = 16; }
		}
	}
	if (base == 0) base = *s == '0' ? 8 : 10;
	q = 0xffffffffffffffffULL / (unsigned)base;
	r = (unsigned)(0xffffffffffffffffULL % (unsigned)base);
	while (digit(*s) < (unsigned)base) {
		unsigned d = digit(*s);
		*over |= (v > q) | ((v == q) & (d > r));
		v = v * (unsigned)base + d;
		any = 1;
		s++;
	}
	if (e) *e = (char*)(any ? s : st);
	return v;
}
long strtol(const char *s, char **e, int base) {
	int n, o; unsigned long long v = conv(s, e, base, &n, &o);
	if (o || v > (unsigned long long)LIMMAX + (unsigned)n) return n ? (long)(-LIMMAX - 1) : (long)LIMMAX;
	return (long)(n ? 0 - v : v);
}
long long strtoll(const char *s, char **e, int base) { return strtol(s, e, base); }
unsigned long strtoul(const char *s, char **e, int base) {
	int n, o; unsigned long long v = conv(s, e, base, &n, &o);
	if (o) return ~0UL;
	return n ? 0 - v : v;
}
unsigned long long strtoull(const char *s, char **e, int base) { return strtoul(s, e, base); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }
/* Sorting: any correct sort gives the same result for a total order */
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
	unsigned char *p = b, t;
	size_t i, j, k;
	for (i = 1; i < n; i++) {
		for (j = i; j > 0 && cmp(p + (j - 1) * sz, p + j * sz) > 0; j--) {
			for (k = 0; k < sz; k++) {
				t = p[j * sz + k]; p[j * sz + k] = p[(j - 1) * sz + k]; p[(j - 1) * sz + k] = t;
			}
		}
	}
}
void *bsearch(const void *key, const void *b, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
	const unsigned char *p = b;
	size_t lo = 0, hi = n;
	while (lo < hi) {
		size_t m = (lo + hi) / 2;
		int c = cmp(key, p + m * sz);
		if (c == 0) return (void*)(p + m * sz);
		if (c < 0) hi = m; else lo = m + 1;
	}
	return NULL;
}
/* printf family: %s %d %i %u %x %X %c %% %p, flags 0, width, precision, l/ll/z/h/hh */
static void put(char *d, size_t n, size_t *k, char c) { if (*k + 1 < n) d[*k] = c; (*k)++; }
int vsnprintf(char *d, size_t n, const char *f, va_list ap) {
	size_t k = 0;
	for (; *f; f++) {
		int zero = 0, left = 0, width = 0, prec = -1, lng = 0, neg = 0, half = 0;
		char t[32];
		int len = 0;
		unsigned long long v = 0;
		if (*f != '%') { put(d, n, &k, *f); continue; }
		f++;
		for (;; f++) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else break; }
		if (*f == '*') { width = va_arg(ap, int); f++; }
		else while (isdigit(*f)) width = width * 10 + (*f++ - '0');
		if (*f == '.') {
			f++; prec = 0;
			if (*f == '*') { prec = va_arg(ap, int); f++; }
			else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0');
		}
		for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng = 1; else if (*f == 'h') half++; else break; }
		if (*f == '%') { put(d, n, &k, '%'); continue; }
		if (*f == 's') {
			const char *s = va_arg(ap, const char*);
			int l = 0, i;
			if (!s) s = "(null)";
			while ((prec < 0 || l < prec) && s[l]) l++;
			if (!left) for (i = l; i < width; i++) put(d, n, &k, ' ');
			for (i = 0; i < l; i++) put(d, n, &k, s[i]);
			if (left) for (i = l; i < width; i++) put(d, n, &k, ' ');
			continue;
		}
		if (*f == 'c') { put(d, n, &k, (char)va_arg(ap, int)); continue; }
		if (*f == 'd' || *f == 'i') {
			long long x = lng ? va_arg(ap, long long) : (long long)va_arg(ap, int);
			if (half == 1) x = (short)x; else if (half == 2) x = (signed char)x;
			neg = x < 0;
			v = neg ? 0ULL - (unsigned long long)x : (unsigned long long)x;
		}
		else {
			v = lng || *f == 'p' ? va_arg(ap, unsigned long long) : (unsigned long long)va_arg(ap, unsigned int);
			if (half == 1) v = (unsigned short)v; else if (half == 2) v = (unsigned char)v;
		}
		{
			unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
			const char *dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
			do { t[len++] = dg[v % base]; v /= base; } while (v);
			while (len < prec && len < 31) t[len++] = '0';
			if (!zero && !left) { int i; for (i = len + neg; i < width; i++) put(d, n, &k, ' '); }
			if (neg) put(d, n, &k, '-');
			if (zero && !left) { int i; for (i = len + neg; i < width; i++) put(d, n, &k, '0'); }
			{ int i; for (i = len; i > 0; i--) put(d, n, &k, t[i - 1]); }
			if (left) { int i; for (i = len + neg; i < width; i++) put(d, n, &k, ' '); }
		}
	}
	if (n > 0) d[k < n ? k : n - 1] = 0;
	return (int)k;
}
int snprintf(char *d, size_t n, const char *f, ...) {
	va_list ap; int r; va_start(ap, f); r = vsnprintf(d, n, f, ap); va_end(ap); return r;
}
int sprintf(char *d, const char *f, ...) {
	va_list ap; int r; va_start(ap, f); r = vsnprintf(d, (size_t)1 << 30, f, ap); va_end(ap); return r;
}
/* output is not observed */
int printf(const char *f, ...) { return 0; }
int fprintf(void *o, const char *f, ...) { return 0; }
int puts(const char *s) { return 0; }
int fputs(const char *s, void *o) { return 0; }
int putchar(int c) { return c; }
int fflush(void *o) { return 0; }
void *stderr, *stdout, *stdin;
int *__errno_location(void) { static int e; return &e; }
static const unsigned short *ctab;
/* pthread mutexes as a word: 0 free. Blocking ends the run as a deadlock
 * when no other thread can release it. */
void verif_yield(void);
void verif_wait_zero(volatile int *p);
void verif_sym_assert(int c, const char *msg);
int pthread_mutex_init(int *m, const void *a) { m[0] = 0; return 0; }
int pthread_mutex_destroy(int *m) {
	verif_sym_assert(m[0] == 0, "mutex destroyed while locked");
	return 0;
}
int pthread_mutex_lock(int *m) {
	verif_yield();
	while (*(volatile int*)m) verif_wait_zero(m);
	m[0] = 1;
	return 0;
}
int pthread_mutex_trylock(int *m) {
	verif_yield();
	if (m[0]) return 16;
	m[0] = 1;
	return 0;
}
int pthread_mutex_unlock(int *m) {
	verif_sym_assert(m[0] == 1, "mutex unlocked while not locked");
	m[0] = 0;
	verif_yield();
	return 0;
}
/* condition variables: waiters spin through the scheduler; wake-ups may be
 * spurious, as POSIX allows */
int pthread_cond_init(void *c, const void *a) { return 0; }
int pthread_cond_destroy(void *c) { return 0; }
int pthread_cond_signal(void *c) { return 0; }
int pthread_cond_broadcast(void *c) { return 0; }
int pthread_cond_wait(void *c, int *m) {
	pthread_mutex_unlock(m);
	return pthread_mutex_lock(m);
}
double strtod(const char *s, char **end) {
	double v = 0, scale = 1;
	int neg = 0, any = 0;
	const char *start = s;
	while (isspace((unsigned char)*s)) s++;
	if (*s == '-' || *s == '+') neg = *s++ == '-';
	for (; isdigit((unsigned char)*s); s++) { v = v * 10 + (*s - '0'); any = 1; }
	if (*s == '.') for (s++; isdigit((unsigned char)*s); s++) { v = v * 10 + (*s - '0'); scale *= 10; any = 1; }
	if (any && (*s == 'e' || *s == 'E')) {
		char *e;
		long x = strtol(s + 1, &e, 10);
		if (e != s + 1) {
			s = e;
			for (; x > 0; x--) v *= 10;
			for (; x < 0; x++) scale *= 10;
		}
	}
	if (end) *end = (char*)(any ? s : start);
	return any ? (neg ? -(v / scale) : v / scale) : 0;
}
double atof(const char *s) { return strtod(s, NULL); }
double frexp(double v, int *e) {
	unsigned long long b;
	__builtin_memcpy(&b, &v, 8);
	int x = (int)((b >> 52) & 0x7ff);
	*e = 0;
	if (v == 0 || x == 0x7ff) return v;
	if (x == 0) { double r = frexp(v * 18014398509481984.0, e); *e -= 54; return r; }
	*e = x - 1022;
	b = (b & 0x800fffffffffffffull) | (1022ull << 52);
	__builtin_memcpy(&v, &b, 8);
	return v;
}
double ldexp(double v, int e) {
	for (; e > 0; e--) v *= 2;
	for (; e < 0; e++) v /= 2;
	return v;
}
float ldexpf(float v, int e) { return (float)ldexp(v, e); }
float frexpf(float v, int *e) { return (float)frexp(v, e); }
/* Integer powers only */
double pow(double b, double x) {
	double r = 1;
	int n = (int)x;
	verif_sym_assert((double)n == x, "MODEL integer power");
	for (; n > 0; n--) r *= b;
	for (; n < 0; n++) r /= b;
	return r;
}
float powf(float b, float x) { return (float)pow(b, x); }
