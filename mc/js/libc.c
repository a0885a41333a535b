/*
 * What the library needs of a C library, for its wasm32 build.  Memory comes from the host (host.mjs), which fences,
 * counts and refuses it; functions that are missing here become imports that end the execution if they are called.
 */
#include <stddef.h>
int errno;
void* mc_malloc(size_t); void mc_free(void*); size_t mc_size(void*);
void* memcpy(void* d, const void* s, size_t n) { char* a = d; const char* b = s; while(n--) *a++ = *b++; return d; }
void* memmove(void* d, const void* s, size_t n) { char* a = d; const char* b = s; if(a < b) while(n--) *a++ = *b++; else while(n--) a[n] = b[n]; return d; }
void* memset(void* d, int c, size_t n) { char* a = d; while(n--) *a++ = c; return d; }
int memcmp(const void* x, const void* y, size_t n) { const unsigned char* a = x,* b = y; for(; n; n--, a++, b++) if(*a != *b) return *a-*b; return 0; }
size_t strlen(const char* s) { size_t n = 0; while(s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while(*a && *a == *b) a++, b++; return (unsigned char)*a-(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for(; n && *a && *a == *b; n--) a++, b++; return n ? (unsigned char)*a-(unsigned char)*b : 0; }
char* strchr(const char* s, int c) { for(; *s; s++) if(*s == (char)c) return (char*)s; return c ? NULL : (char*)s; }
char* strrchr(const char* s, int c) { const char* r = NULL; do if(*s == (char)c) r = s; while(*s++); return (char*)r; }
char* strerror(int e) { return e == 2 ? "No such file or directory" : "Unknown error"; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c+32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c-32 : c; }
int isspace(int c) { return c == ' ' || c >= 9 && c <= 13; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return tolower(c) >= 'a' && tolower(c) <= 'z'; }
void* malloc(size_t n) { return mc_malloc(n); }
void free(void* p) { if(p) mc_free(p); }
void* calloc(size_t a, size_t b) { if(b && a > (size_t)-1/b) return NULL; void* p = malloc(a*b); if(p) memset(p,0,a*b); return p; }
void* realloc(void* p, size_t n) { void* q = malloc(n); if(q && p) { size_t o = mc_size(p); memcpy(q,p,o < n ? o : n); free(p); } return q; }
void* aligned_alloc(size_t a, size_t n) { return malloc(n); }
char* strdup(const char* s) { size_t n = strlen(s)+1; char* p = malloc(n); if(p) memcpy(p,s,n); return p; }
void qsort(void* base, size_t n, size_t sz, int(*cmp)(const void*, const void*)) {
	char* b = base, t;
	for(size_t i = 1; i < n; i++) for(size_t j = i; j && cmp(b+(j-1)*sz,b+j*sz) > 0; j--) for(size_t k = 0; k < sz; k++) { t = b[(j-1)*sz+k]; b[(j-1)*sz+k] = b[j*sz+k]; b[j*sz+k] = t; }
}
double round(double x) { double f = __builtin_floor(__builtin_fabs(x)); if(__builtin_fabs(x)-f >= 0.5) f += 1; return __builtin_copysign(f,x); }
float roundf(float x) { return round(x); }
double fmax(double a, double b) { return a != a ? b : b != b ? a : a > b ? a : b; }
double fmin(double a, double b) { return a != a ? b : b != b ? a : a < b ? a : b; }
float fmaxf(float a, float b) { return fmax(a,b); }
float fminf(float a, float b) { return fmin(a,b); }
long lround(double x) { return round(x); }
long lroundf(float x) { return round(x); }
double m_cos(double), m_sin(double), m_pow(double,double), m_log(double), m_exp(double);
double cos(double x) { return m_cos(x); } double sin(double x) { return m_sin(x); } double pow(double a, double b) { return m_pow(a,b); } double log(double x) { return m_log(x); } double exp(double x) { return m_exp(x); }
float cosf(float x) { return m_cos(x); } float sinf(float x) { return m_sin(x); } float powf(float a, float b) { return m_pow(a,b); } float logf(float x) { return m_log(x); } float expf(float x) { return m_exp(x); }
double m_atan(double); double atan(double x) { return m_atan(x); } float atanf(float x) { return m_atan(x); }
double frexp(double x, int* e) {
	union { double d; unsigned long long u; } v = {x}; int b = v.u >> 52 & 2047;
	*e = 0;
	if(x == 0 || b == 2047) return x;
	if(!b) { v.d = x*0x1p64; b = v.u >> 52 & 2047; *e = -64; }
	*e += b-1022; v.u = (v.u & ~(2047ull << 52)) | 1022ull << 52;
	return v.d;
}
float frexpf(float x, int* e) { return frexp(x,e); }
double ldexp(double x, int e) { while(e > 1000) x *= 0x1p1000, e -= 1000; while(e < -1000) x *= 0x1p-1000, e += 1000; return x*m_pow(2,e); }
#define U(f,t,b) t f(t x) { return b(x); }
U(fabs,double,__builtin_fabs) U(fabsf,float,__builtin_fabsf) U(sqrt,double,__builtin_sqrt) U(sqrtf,float,__builtin_sqrtf) U(floor,double,__builtin_floor) U(floorf,float,__builtin_floorf)
U(ceil,double,__builtin_ceil) U(ceilf,float,__builtin_ceilf) U(trunc,double,__builtin_trunc) U(truncf,float,__builtin_truncf) U(rint,double,__builtin_rint) U(rintf,float,__builtin_rintf) U(nearbyint,double,__builtin_rint)
double copysign(double a, double b) { return __builtin_copysign(a,b); }
float copysignf(float a, float b) { return __builtin_copysignf(a,b); }
