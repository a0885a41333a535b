/*
 * Calls from two threads (C16).
 *
 * The library is compiled with the compiler's thread instrumentation, but the runtime is this file: every memory access
 * of the library, every call it makes out of itself, and every synchronisation passes through here.  Two real threads run
 * one operation each, one at a time, under a scheduler that explores every way of interrupting the first at a visible
 * point (a call out of the library or an access to memory that is not the thread's own), and the second in turn, and a
 * detector that compares all accesses of the two threads in every execution (vector clocks, so that locks and atomics
 * order what they order).  Executions without a conflicting pair are equivalent to every other interleaving of them.
 */
#define MC_NO_RLIMIT
#include "mc.h"
#include "resdet.h"
#include "codec.h"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>

/* ---- the two threads ---- */
static __thread int me;                 /* 0 = not under the scheduler, else 1, 2 */
static sem_t baton[3], back;
static volatile int done_[3], quit_;
static volatile uint64_t npts[3], sw[2];
static volatile int phase, first, sched_on;
static char* stk[3]; static const size_t stksz = 1 << 20;
static uint64_t result[3], accesses;

struct op { const char* name; uint64_t (*fn)(int variant); };
static const struct op* todo[3]; static int variant[3];

static void pass(int to) { int e = errno; sem_post(&baton[to]); while(sem_wait(&baton[me])); errno = e; }
static void point(void) {
	if(!me || !sched_on) return;
	int t = me; uint64_t n = ++npts[t];
	if(t == first && phase == 0 && n == sw[0]) { phase = 1; if(!done_[3-t]) { mc_trace("thread %d is interrupted at its point %llu",t,(unsigned long long)n); pass(3-t); } }
	else if(t == 3-first && phase == 1 && n == sw[1]) { phase = 2; if(!done_[3-t]) { mc_trace("thread %d is interrupted at its point %llu",t,(unsigned long long)n); pass(3-t); } }
}
void mc_ext_point(void) { point(); }

/* ---- who owns which memory, and who touched it ---- */
struct gran { uint64_t key; uint32_t gen; uint16_t w[2][8], r[2][8]; };
#define NG (1 << 17)
static struct gran* sh; static uint32_t gen = 1; static uint16_t clk[3] = {0,1,1}, vc[3][3];
static struct gran* granule(uint64_t k) {
	size_t i = (k*0x9e3779b97f4a7c15ull) >> 47;
	for(int n = 0; ; i = (i+1) & (NG-1), n++) {
		if(sh[i].gen != gen) { memset(&sh[i],0,sizeof *sh); sh[i].key = k; sh[i].gen = gen; return &sh[i]; }
		if(sh[i].key == k) return &sh[i];
		if(n > NG/2) { fprintf(stderr,"shadow memory full\n"); _exit(70); }
	}
}
static void forget(const void* p, size_t n) {
	for(uint64_t a = (uint64_t)p & ~7ull; a < (uint64_t)p+n; a += 8) { struct gran* g = granule(a >> 3); memset(g->w,0,sizeof g->w); memset(g->r,0,sizeof g->r); }
}
#define NB 4096
static struct { char* p; size_t n; int t; } blk[NB]; static int nblk;
static void own(void* p, size_t n) { if(!p || !me) return; forget(p,n); if(nblk >= NB) { fprintf(stderr,"too many blocks\n"); _exit(70); } blk[nblk].p = p; blk[nblk].n = n; blk[nblk++].t = me; }
static int owner(const char* p) { for(int i = nblk-1; i >= 0; i--) if(p >= blk[i].p && p < blk[i].p+blk[i].n) return blk[i].t; for(int t = 1; t < 3; t++) if(p >= stk[t] && p < stk[t]+stksz) return t; return 0; }
static void disown(void* p) { for(int i = nblk-1; i >= 0; i--) if(blk[i].p == p) { forget(p,blk[i].n); blk[i] = blk[--nblk]; return; } }
static const char* raced; static char racetext[300];
static void access_(const void* p, size_t n, bool wr, void* pc) {
	if(!me) return;
	int t = me-1, o = 1-t; accesses++;
	int ow = owner(p);
	if(ow != me) point();
	for(size_t i = 0; i < n; i++) {
		uint64_t a = (uint64_t)p+i; struct gran* g = granule(a >> 3); int b = a & 7;
		if((g->w[o][b] && g->w[o][b] > vc[me][o+1]) || (wr && g->r[o][b] && g->r[o][b] > vc[me][o+1])) {
			if(!raced) {
				snprintf(racetext,sizeof racetext,"both threads access the same memory (%s of %zu bytes at %s) without synchronisation, one of them writing",wr ? "a write" : "a read",n,ow == 3-me ? "a block of the other thread" : ow ? "a block of this thread" : "static or shared memory");
				raced = racetext;
			}
		}
		if(wr) g->w[t][b] = clk[me]; else g->r[t][b] = clk[me];
	}
}
static void acquire(const void* s) { uint64_t k = (uint64_t)s | 1ull << 63; struct gran* g = granule(k); for(int u = 1; u < 3; u++) { uint16_t v = g->w[u-1][0]; if(v > vc[me][u]) vc[me][u] = v; } }
static void release(const void* s) { uint64_t k = (uint64_t)s | 1ull << 63; struct gran* g = granule(k); for(int u = 1; u < 3; u++) { uint16_t v = u == me ? clk[me] : vc[me][u]; if(v > g->w[u-1][0]) g->w[u-1][0] = v; } clk[me]++; }

/* what the instrumented code calls */
#define PC __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void* p) { access_(p,n,false,PC); } void __tsan_write##n(void* p) { access_(p,n,true,PC); } \
	void __tsan_unaligned_read##n(void* p) { access_(p,n,false,PC); } void __tsan_unaligned_write##n(void* p) { access_(p,n,true,PC); } \
	void __tsan_volatile_read##n(void* p) { access_(p,n,false,PC); } void __tsan_volatile_write##n(void* p) { access_(p,n,true,PC); } \
	void __tsan_read_write##n(void* p) { access_(p,n,false,PC); access_(p,n,true,PC); } void __tsan_unaligned_read_write##n(void* p) { access_(p,n,false,PC); access_(p,n,true,PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access_(p,n,false,PC); }
void __tsan_write_range(void* p, size_t n) { access_(p,n,true,PC); }
void __tsan_vptr_update(void** p, void* v) { access_(p,8,true,PC); }
void __tsan_vptr_read(void** p) { access_(p,8,false,PC); }
void __tsan_init(void) {}
void __tsan_func_entry(void* p) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { access_(s,n,false,PC); access_(d,n,true,PC); return memcpy(d,s,n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access_(s,n,false,PC); access_(d,n,true,PC); return memmove(d,s,n); }
void* __tsan_memset(void* d, int c, size_t n) { access_(d,n,true,PC); return memset(d,c,n); }
#define SYNC(p) do { if(me) { point(); acquire((void*)(p)); } } while(0)
#define REL(p) do { if(me) release((void*)(p)); } while(0)
#define AT(n,T) \
	T __tsan_atomic##n##_load(const volatile T* a, int mo) { SYNC(a); return __atomic_load_n(a,5); } \
	void __tsan_atomic##n##_store(volatile T* a, T v, int mo) { SYNC(a); __atomic_store_n(a,v,5); REL(a); } \
	T __tsan_atomic##n##_exchange(volatile T* a, T v, int mo) { SYNC(a); T r = __atomic_exchange_n(a,v,5); REL(a); return r; } \
	T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int mo) { SYNC(a); T r = __atomic_fetch_add(a,v,5); REL(a); return r; } \
	T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int mo) { SYNC(a); T r = __atomic_fetch_sub(a,v,5); REL(a); return r; } \
	T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int mo) { SYNC(a); T r = __atomic_fetch_and(a,v,5); REL(a); return r; } \
	T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int mo) { SYNC(a); T r = __atomic_fetch_or(a,v,5); REL(a); return r; } \
	T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int mo) { SYNC(a); T r = __atomic_fetch_xor(a,v,5); REL(a); return r; } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { SYNC(a); int r = __atomic_compare_exchange_n(a,c,v,0,5,5); REL(a); return r; } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { SYNC(a); int r = __atomic_compare_exchange_n(a,c,v,0,5,5); REL(a); return r; } \
	T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { SYNC(a); __atomic_compare_exchange_n(a,&c,v,0,5,5); REL(a); return c; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}

/* allocation: blocks belong to the thread that asked for them */
void* __real_malloc(size_t); void* __real_calloc(size_t,size_t); void* __real_realloc(void*,size_t); void __real_free(void*);
void* __real_aligned_alloc(size_t,size_t); int __real_posix_memalign(void**,size_t,size_t); char* __real_strdup(const char*);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); own(p,n); return p; }
void* __wrap_calloc(size_t a, size_t n) { void* p = __real_calloc(a,n); own(p,a*n); return p; }
void* __wrap_realloc(void* o, size_t n) { if(me && o) disown(o); void* p = __real_realloc(o,n); own(p,n); return p; }
void __wrap_free(void* p) { if(me && p) disown(p); __real_free(p); }
void* __wrap_aligned_alloc(size_t a, size_t n) { void* p = __real_aligned_alloc(a,n); own(p,n); return p; }
int __wrap_posix_memalign(void** o, size_t a, size_t n) { int r = __real_posix_memalign(o,a,n); if(!r) own(*o,n); return r; }
char* __wrap_strdup(const char* s) { char* p = __real_strdup(s); own(p,strlen(p)+1); return p; }
#ifndef BACKEND_KISS
float* __real_fftwf_alloc_real(size_t); void* __real_fftwf_malloc(size_t); void __real_fftwf_free(void*);
float* __wrap_fftwf_alloc_real(size_t n) { float* p = __real_fftwf_alloc_real(n); own(p,n*4); return p; }
void* __wrap_fftwf_malloc(size_t n) { void* p = __real_fftwf_malloc(n); own(p,n); return p; }
void __wrap_fftwf_free(void* p) { if(me && p) disown(p); __real_fftwf_free(p); }
#endif
/* locks: a thread that must wait lets the other run */
static struct { void* m; int t, depth; } lk[64]; static int nlk;
static int lock_slot(void* m) { for(int i = 0; i < nlk; i++) if(lk[i].m == m) return i; if(nlk >= 64) _exit(70); lk[nlk].m = m; lk[nlk].t = lk[nlk].depth = 0; return nlk++; }
static void do_lock(void* m) {
	point();
	int i = lock_slot(m);
	while(lk[i].t && lk[i].t != me) {
		if(done_[3-me]) { mc_fail("deadlock","a thread waits for a lock that the other never releases"); }
		pass(3-me);
	}
	lk[i].t = me; lk[i].depth++; acquire(m);
}
static void do_unlock(void* m) { int i = lock_slot(m); if(lk[i].t == me && !--lk[i].depth) { release(m); lk[i].t = 0; } point(); }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_once(pthread_once_t*,void(*)(void));
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if(!me) return __real_pthread_mutex_lock(m); do_lock(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if(!me) return __real_pthread_mutex_unlock(m); do_unlock(m); return 0; }
int __wrap_pthread_once(pthread_once_t* o, void(*f)(void)) { if(!me) return __real_pthread_once(o,f); do_lock(o); int r = __real_pthread_once(o,f); do_unlock(o); return r; }

/* ---- the operations ---- */
static struct pic files[2][8]; static char* paths[2][10]; static float img[2][19*21]; static float shared[19*21]; static RDParameters* sharedparams;
static uint64_t lists(RDError e, RDResolution* rw, size_t cw, RDResolution* rh, size_t ch) {
	uint64_t h = mc_hashi(e,0); h = mc_hashi(cw,h); h = mc_hashi(ch,h);
	for(size_t i = 0; i < cw; i++) { h = mc_hashi(rw[i].index,h); h = mc_hash(&rw[i].confidence,4,h); }
	for(size_t i = 0; i < ch; i++) { h = mc_hashi(rh[i].index,h); h = mc_hash(&rh[i].confidence,4,h); }
	return h;
}
static uint64_t analyse(const char* m, size_t w, size_t h, float* data, const RDParameters* given, int v) {
	RDError e; RDParameters* p = NULL;
	if(!given) { p = resdet_alloc_default_parameters(); resdet_parameters_set_range(p,1+v); resdet_parameters_set_threshold(p,0); resdet_parameters_set_compression_filter(p,v); }
	RDAnalysis* a = resdet_create_analysis(resdet_get_method(m),w,h,given ? given : p,&e);
	RDResolution* rw = NULL,* rh = NULL; size_t cw = 0, ch = 0; uint64_t r = mc_hashi(e,0);
	if(!e) {
		r = mc_hashi(resdet_analyze_image(a,data),r); r = mc_hashi(resdet_analyze_image(a,data+1),r);
		e = resdet_analysis_results(a,&rw,&cw,&rh,&ch); r = mc_hashi(lists(e,rw,cw,rh,ch),r);
	}
	resdet_destroy_analysis(a); free(rw); free(rh); free(p);
	return r;
}
#define AN(name,m,w,h) static uint64_t name(int v) { return analyse(m,w,h,img[v],NULL,v); }
AN(a_sign,"sign",9,7) AN(a_mag,"mag",7,9) AN(a_orig,"orig",9,7) AN(a_zerox,"zerox",14,5) AN(a_square,"sign",7,7) AN(a_short,NULL,1,11)
static uint64_t a_shared(int v) { return analyse(v ? "mag" : "sign",9,7,shared,sharedparams,v); }
static uint64_t a_same(int v) { return analyse("sign",9,7,shared,sharedparams,v); }
static uint64_t a_nan(int v) { float d[63]; for(int i = 0; i < 63; i++) d[i] = i == 40+v ? NAN : i; return analyse("sign",9,6,d,NULL,v); }
static uint64_t d_mem(int v) { RDResolution* rw,* rh; size_t cw, ch; RDError e = resdetect(img[v],2,9,7,&rw,&cw,&rh,&ch,resdet_get_method("zerox"),NULL); uint64_t r = lists(e,rw,cw,rh,ch); free(rw); free(rh); return r; }
static uint64_t d_file(int v) { RDResolution* rw,* rh; size_t cw, ch; RDError e = resdetect_file(paths[v][2],NULL,&rw,&cw,&rh,&ch,resdet_get_method("zerox"),NULL); uint64_t r = lists(e,rw,cw,rh,ch); free(rw); free(rh); return r; }
static uint64_t hpix(const float* b, size_t n, uint64_t h) { return mc_hash(b,n*4,h); }
static uint64_t readall(const char* path, const char* rd) {
	size_t w, h; float* b; RDError e; RDImage* im = rd ? resdet_open_image_with_reader(path,rd,&w,&h,&b,&e) : resdet_open_image(path,NULL,&w,&h,&b,&e);
	uint64_t r = mc_hashi(e,0);
	if(!im) return r;
	r = mc_hashi(w,mc_hashi(h,r));
	while(resdet_read_image_frame(im,b,&e)) r = hpix(b,w*h,r);
	r = mc_hashi(e,r);
	resdet_close_image(im); free(b);
	return r;
}
static __thread uint64_t prog;
static void onprog(void* c, uint64_t n) { *(uint64_t*)c = mc_hashi(n,*(uint64_t*)c); }
static uint64_t seekread(const char* path, int off) {
	size_t w, h; float* b; RDError e; RDImage* im = resdet_open_image(path,NULL,&w,&h,&b,&e); uint64_t r = mc_hashi(e,0), p = 0;
	if(!im) return r;
	r = mc_hashi(resdet_seek_frame(im,off,onprog,&p,&e),r); r = mc_hashi(e,mc_hashi(p,r));
	if(resdet_read_image_frame(im,b,&e)) r = hpix(b,w*h,r);
	r = mc_hashi(e,r);
	resdet_close_image(im); free(b);
	return r;
}
#define RD(name,k) static uint64_t name(int v) { return readall(paths[v][k],NULL); }
RD(r_pgm,0) RD(r_pfm,1) RD(r_y4m,2) RD(r_png,3) RD(r_jpg,4) RD(r_badpng,5) RD(r_badjpg,6) RD(r_bady4m,7) RD(r_badpfm,8)
static uint64_t r_named(int v) { return readall(paths[v][1],"pFm"); }
static uint64_t r_unknown(int v) { return readall(paths[v][1],v ? "nothing" : "libsomething"); }
static uint64_t s_y4m(int v) { return seekread(paths[v][2],1+v); }
static uint64_t s_pfm(int v) { return seekread(paths[v][1],1); }
static uint64_t s_png(int v) { return seekread(paths[v][3],v); }
static uint64_t r_bulk(int v) { float* b; size_t n, w, h; RDError e = resdet_read_image(paths[v][v ? 1 : 2],NULL,&b,&n,&w,&h); uint64_t r = mc_hashi(e,0); if(!e) r = hpix(b,n*w*h,mc_hashi(w,mc_hashi(h,r))); free(b); return r; }
static uint64_t o_query(int v) {
	uint64_t r = 0; const char* const* l = resdet_list_image_readers();
	for(; *l; l++) r = mc_hash(*l,strlen(*l),r);
	for(RDMethod* m = resdet_methods(); m->name; m++) { r = mc_hash(m->name,strlen(m->name),r); r = mc_hashi(resdet_get_method(m->name) == m,r); r = mc_hash(&m->threshold,4,r); }
	for(int e = 0; e <= resdet_get_max_error()+1; e++) { const char* s = resdet_error_str(e); r = s ? mc_hash(s,strlen(s),r) : r+1; }
	r = mc_hashi(resdet_default_range(),r); r = mc_hash(resdet_libversion(),strlen(resdet_libversion()),r);
	RDParameters* p = resdet_alloc_default_parameters(); r = mc_hashi(resdet_parameters_set_range(p,v),r); r = mc_hashi(resdet_parameters_set_threshold(p,2-v),r); r = mc_hashi(resdet_parameters_set_compression_filter(p,40-v*20),r); free(p);
	return mc_hashi(resdet_get_method("none") == NULL,r);
}
static const struct op ops[] = {
	{"analysis (sign)",a_sign},{"analysis (mag)",a_mag},{"analysis (orig)",a_orig},{"analysis (zerox)",a_zerox},{"analysis of a square image",a_square},{"analysis of a one pixel wide image",a_short},
	{"analysis of shared pixels with shared parameters",a_shared},{"the same analysis of shared pixels",a_same},{"analysis of a bad image",a_nan},{"resdetect",d_mem},{"resdetect_file",d_file},
	{"reading a PGM",r_pgm},{"reading a PFM",r_pfm},{"reading a Y4M",r_y4m},{"reading a PNG",r_png},{"reading a JPEG",r_jpg},{"reading a broken PNG",r_badpng},{"reading a broken JPEG",r_badjpg},{"reading a truncated Y4M",r_bady4m},{"reading a bad PFM",r_badpfm},
	{"reading with a named reader",r_named},{"opening with an unknown reader",r_unknown},{"seeking in a Y4M",s_y4m},{"seeking in a PFM",s_pfm},{"seeking in a PNG",s_png},{"resdet_read_image",r_bulk},{"queries and parameters",o_query},
};
#define NOPS ((int)(sizeof ops/sizeof *ops))
static uint64_t solo_pts[NOPS][2], solo_res[NOPS][2];

static void* worker(void* p) {
	me = (int)(intptr_t)p;
	for(;;) {
		while(sem_wait(&baton[me]));
		if(quit_) return NULL;
		result[me] = todo[me]->fn(variant[me]);
		done_[me] = 1;
		int o = 3-me;
		if(todo[o] && !done_[o]) sem_post(&baton[o]); else sem_post(&back);
	}
}
/* run the operations of both threads, or of one */
static void go(const struct op* a, const struct op* b, int f, uint64_t k1, uint64_t k2) {
	if(++gen == 0) gen = 1;
	nblk = nlk = 0; memset(vc,0,sizeof vc); clk[1] = clk[2] = 1; raced = NULL;
	todo[1] = a; todo[2] = b; variant[1] = 0; variant[2] = 1; done_[1] = !a; done_[2] = !b; npts[1] = npts[2] = 0; sw[0] = k1; sw[1] = k2; phase = 0; first = f; sched_on = 1;
	sem_post(&baton[f]);
	while(sem_wait(&back));
	sched_on = 0;
}
static void prepare(void) {
	static bool did; if(did) return; did = true;
	sh = mmap(NULL,sizeof *sh*NG,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
	for(int v = 0; v < 2; v++) {
		struct pic* f = files[v];
		mk_pgm(&f[0],5+v,4,255,3+v,"\n"," ","\n","\n",-1); mk_pfm(&f[1],4,3+v,2,v ? 1 : 2,v,3+v,"\n","1.0",true); mk_y4m(&f[2],5,4+v,3,v ? 12 : 2,"W%W H%H %C","",3+v);
		mk_png(&f[3],4+v,3,v ? 5 : 7,v,3+v); mk_jpeg(&f[4],6,5+v,v,3+v);
		mk_png(&f[5],4+v,3,v ? 0 : 7,v,3+v); f[5].b.n -= 20+v*10; mk_jpeg(&f[6],6,5+v,v,3+v); f[6].b.n = 80+v*70; mk_y4m(&f[7],4,4+v,2,9,"W%W H%H %C","",3+v); f[7].b.n -= 5+v;
		for(int k = 0; k < 8; k++) { char* p = scratch_file(f[k].ext); char t[1100]; snprintf(t,sizeof t,"%s/t%d-%d.%s",mc_scratch,v,k,f[k].ext); paths[v][k] = strdup(t); (void)p; write_file(t,f[k].b.p,f[k].b.n); }
		char t[1100]; snprintf(t,sizeof t,"%s/t%d-8.pfm",mc_scratch,v); paths[v][8] = strdup(t); write_file(t,v ? "Pf\n3 0\n-1.0\n" : "PG\n3 4\n-1.0\n",12);
		for(int i = 0; i < 19*21; i++) img[v][i] = sin(i*0.7+v)+(i*i*(7+v) % 23)/23.;
	}
	for(int i = 0; i < 19*21; i++) shared[i] = cos(i*0.9)+(i*i % 19)/19.;
	sharedparams = resdet_alloc_default_parameters(); resdet_parameters_set_range(sharedparams,2); resdet_parameters_set_threshold(sharedparams,0);
	sem_init(&back,0,0);
	for(int t = 1; t < 3; t++) {
		sem_init(&baton[t],0,0);
		stk[t] = mmap(NULL,stksz,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
		pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,stk[t],stksz); pthread_t th;
		if(pthread_create(&th,&at,worker,(void*)(intptr_t)t)) _exit(70);
	}
	sigset_t s; sigemptyset(&s);
	/* alone, twice: what each operation gives, and its number of visible points */
	for(int r = 0; r < 2; r++) for(int o = 0; o < NOPS; o++) for(int v = 0; v < 2; v++) {
		go(v ? NULL : &ops[o],v ? &ops[o] : NULL,1+v,0,0);
		if(r) { MC_CHECK(solo_res[o][v] == result[1+v],"repeat","%s gives another result when it is repeated",ops[o].name); if(npts[1+v] > solo_pts[o][v]) solo_pts[o][v] = npts[1+v]; }
		else solo_res[o][v] = result[1+v], solo_pts[o][v] = npts[1+v];
	}
}
static int opidx(void) { return mc_choose(NOPS); }
static void mc_case(void) {
	if(!mc_st->execs) _exit(70);
	int a = opidx(), b = opidx(), f = 1+mc_choose(2); mc_mine();
	prepare();
	uint64_t n1 = solo_pts[f == 1 ? a : b][f-1], n2 = solo_pts[f == 1 ? b : a][2-f];
	uint64_t k1 = strcmp(mc_mode,"race") ? mc_choose(n1+1) : 0;
	uint64_t k2 = 0;
	/* the second interruption: in the thorough tier for every pair, otherwise where the product of points is small */
	bool deep = mc_tier ? n1*n2 < 250000 : n1*n2 <= 1500 || (a == b && n1*n2 < 8000);
	if(k1 && deep) k2 = mc_choose(n2+1);
	if(!k1 && f == 2 && *mc_mode != 'r') mc_skip();
	go(&ops[a],&ops[b],f,k1,k2);
	mc_trans += accesses; accesses = 0;
	char w[300]; snprintf(w,sizeof w,"%s in one thread and %s in another, thread %d first, interrupted at its visible point %d, the other at %d",ops[a].name,ops[b].name,f,(int)k1,(int)k2);
	if(raced) mc_fail("race","%s: %s",w,raced);
	for(int t = 1; t < 3; t++)
		if(result[t] != solo_res[t == 1 ? a : b][t-1]) mc_fail("interference","%s: %s gives another result than alone",w,ops[t == 1 ? a : b].name);
	/* the state of the exploration: which pair, where each thread is */
	mc_state(mc_hashi(a*NOPS+b,mc_hashi(f,mc_hashi(k1,mc_hashi(k2,0)))));
	mc_outcome(mc_hashi(a,mc_hashi(b,mc_hashi(npts[1],mc_hashi(npts[2],0)))));
	if(k1) mc_nontriv++;
	if(mc_want_sample()) mc_sample("%s: no conflict, results as alone",w);
	mc_trace("%s: results as alone",w);
}
