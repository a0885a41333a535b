/*
 * wrap.h - the library's allocations and files go through here (linked with --wrap): any of them can be made to fail, and what
 * is still held afterwards is known.  Only calls made while "armed" count, so the harness's own allocations do not.
 */
#ifndef WRAP_H
#define WRAP_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>

static int wr_armed;                 /* inside a library call */
static uint64_t wr_n;                /* allocation requests so far */
static uint64_t wr_fail[2];          /* the requests that fail (1-based, 0 = none) */
static uint64_t wr_from;             /* every request from this one on fails (0 = none) */
static int wr_failed, wr_failed_fft; /* failures injected; those while inside the FFT */
static int wr_infft;
static long wr_fopens, wr_badclose;
static char wr_lastwhat[64];

#define WR_MAX 4096
static void* wr_live[WR_MAX]; static int wr_nlive; static FILE* wr_file[256]; static int wr_nfile;
static void wr_add(void* p) { if(p && wr_armed) { if(wr_nlive >= WR_MAX) { fprintf(stderr,"wrap: too many live blocks\n"); _exit(70); } wr_live[wr_nlive++] = p; } }
static bool wr_del(void* p) { for(int i = wr_nlive-1; i >= 0; i--) if(wr_live[i] == p) { wr_live[i] = wr_live[--wr_nlive]; return true; } return false; }
static bool wr_deny(const char* what) {
	if(!wr_armed) return false;
	uint64_t k = ++wr_n;
	if((wr_fail[0] && k == wr_fail[0]) || (wr_fail[1] && k == wr_fail[1]) || (wr_from && k >= wr_from)) {
		wr_failed++; wr_failed_fft += wr_infft > 0; snprintf(wr_lastwhat,sizeof wr_lastwhat,"%s%s",what,wr_infft ? " inside the transform" : "");
		errno = ENOMEM; return true;
	}
	return false;
}
static void wr_reset(void) { wr_n = 0; wr_fail[0] = wr_fail[1] = wr_from = 0; wr_failed = wr_failed_fft = 0; wr_lastwhat[0] = 0; }
#define LIB(expr) ({ wr_armed++; __auto_type _r = (expr); wr_armed--; _r; })
#define LIBV(expr) ({ wr_armed++; expr; wr_armed--; })

void* __real_malloc(size_t); void* __real_calloc(size_t,size_t); void* __real_realloc(void*,size_t); void __real_free(void*);
void* __real_aligned_alloc(size_t,size_t); int __real_posix_memalign(void**,size_t,size_t); char* __real_strdup(const char*);
FILE* __real_fopen(const char*,const char*); int __real_fclose(FILE*);
void* __wrap_malloc(size_t n) { if(wr_deny("malloc")) return NULL; void* p = __real_malloc(n); wr_add(p); return p; }
void* __wrap_calloc(size_t a, size_t b) { if(wr_deny("calloc")) return NULL; void* p = __real_calloc(a,b); wr_add(p); return p; }
void* __wrap_realloc(void* o, size_t n) { if(wr_deny("realloc")) return NULL; wr_del(o); void* p = __real_realloc(o,n); wr_add(p); return p; }
void __wrap_free(void* p) { if(p) wr_del(p); __real_free(p); }
void* __wrap_aligned_alloc(size_t a, size_t n) { if(wr_deny("aligned_alloc")) return NULL; void* p = __real_aligned_alloc(a,n); wr_add(p); return p; }
int __wrap_posix_memalign(void** o, size_t a, size_t n) { if(wr_deny("posix_memalign")) return ENOMEM; int r = __real_posix_memalign(o,a,n); if(!r) wr_add(*o); return r; }
char* __wrap_strdup(const char* s) { if(wr_deny("strdup")) return NULL; char* p = __real_strdup(s); wr_add(p); return p; }
static FILE* (*wr_fopen_hook)(const char*,const char*);
static int wr_fopen_deny; /* make opening files fail when its turn comes, like an allocation */
FILE* __wrap_fopen(const char* p, const char* m) {
	if(!wr_armed) return __real_fopen(p,m);
	if(wr_fopen_deny && wr_deny("fopen")) { errno = EMFILE; return NULL; }
	FILE* f = wr_fopen_hook ? wr_fopen_hook(p,m) : __real_fopen(p,m);
	if(f) { wr_fopens++; if(wr_nfile < 256) wr_file[wr_nfile++] = f; }
	return f;
}
int __wrap_fclose(FILE* f) {
	if(wr_armed) {
		int i; for(i = 0; i < wr_nfile; i++) if(wr_file[i] == f) { wr_file[i] = wr_file[--wr_nfile]; break; }
		if(f == stdin) wr_badclose++;
	}
	return __real_fclose(f);
}
/* FFTW's allocator and planner (single precision build); the library frees what it gets with the matching call */
#ifndef BACKEND_KISS
#include <fftw3.h>
float* __real_fftwf_alloc_real(size_t); void* __real_fftwf_malloc(size_t); void __real_fftwf_free(void*);
fftwf_plan __real_fftwf_plan_r2r_2d(int,int,float*,float*,fftwf_r2r_kind,fftwf_r2r_kind,unsigned); void __real_fftwf_destroy_plan(fftwf_plan); void __real_fftwf_execute(const fftwf_plan);
float* __wrap_fftwf_alloc_real(size_t n) { if(wr_deny("fftw_alloc")) return NULL; void* p = __real_fftwf_alloc_real(n); wr_add(p); return p; }
void* __wrap_fftwf_malloc(size_t n) { if(wr_deny("fftw_malloc")) return NULL; void* p = __real_fftwf_malloc(n); wr_add(p); return p; }
void __wrap_fftwf_free(void* p) { if(p) wr_del(p); __real_fftwf_free(p); }
fftwf_plan __wrap_fftwf_plan_r2r_2d(int a, int b, float* i, float* o, fftwf_r2r_kind k, fftwf_r2r_kind l, unsigned f) { if(wr_deny("fftw_plan")) return NULL; fftwf_plan p = __real_fftwf_plan_r2r_2d(a,b,i,o,k,l,f); wr_add(p); return p; }
void __wrap_fftwf_destroy_plan(fftwf_plan p) { if(p) wr_del(p); __real_fftwf_destroy_plan(p); }
#else
struct kiss_fftr_state; 
void __real_kiss_fftr(struct kiss_fftr_state*, const float*, void*) __attribute__((weak));
void __wrap_kiss_fftr(struct kiss_fftr_state* c, const float* a, void* b) { wr_infft++; __real_kiss_fftr(c,a,b); wr_infft--; }
#endif
#endif
