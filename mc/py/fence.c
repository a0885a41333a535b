/*
 * fence.c - the allocator under the Python bindings.
 *
 * The library is linked with --wrap and the bindings' libc is replaced by this, so that every block that passes
 * between them ends at a page that cannot be touched, cannot be touched at all once released, must be released
 * exactly once, and can be refused.
 */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>

extern void* __libc_malloc(size_t);
extern void __libc_free(void*);

#define NLIVE 4096
#define NDEAD 1024
struct block { char* p; size_t n; char* map; size_t len; };
static struct block live[NLIVE], dead[NDEAD];
static size_t nlive, ndead;
static long count, fail_at = -1, refused;

static void die(const char* s) { (void)!write(2,s,strlen(s)); abort(); }

static void* alloc(size_t n) {
	if(count++ == fail_at) { refused++; return NULL; }
	if(n > (size_t)1 << 30) return NULL;
	size_t body = (n+4095)/4096*4096, len = body+4096;
	char* m = mmap(NULL,len,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
	if(m == MAP_FAILED) return NULL;
	mprotect(m+body,4096,PROT_NONE);
	memset(m,0xa5,body);
	if(nlive == NLIVE) die("fence: too many blocks\n");
	live[nlive] = (struct block){ m+body-n, n, m, len };
	if(!n) live[nlive].p = m+body; /* not to be touched, but to be released */
	return live[nlive++].p;
}
static struct block* find(void* p) {
	for(size_t i = nlive; i-- > 0; ) if(live[i].p == p) return &live[i];
	return NULL;
}
static void release(void* p) {
	if(!p) return;
	struct block* b = find(p);
	if(!b) {
		for(size_t i = 0; i < NDEAD; i++)
			if(dead[i].map && (char*)p >= dead[i].map && (char*)p <= dead[i].map+dead[i].len) die("fence: memory released twice\n");
		for(size_t i = 0; i < nlive; i++)
			if((char*)p >= live[i].map && (char*)p < live[i].map+live[i].len) die("fence: released an address inside of a block\n");
		__libc_free(p);
		return;
	}
	struct block* d = &dead[ndead++%NDEAD];
	if(d->map) munmap(d->map,d->len);
	*d = *b;
	*b = live[--nlive];
	mprotect(d->map,d->len,PROT_NONE);
}

void* malloc(size_t n) { return alloc(n); }
void free(void* p) { release(p); }
void* calloc(size_t a, size_t b) {
	size_t n;
	if(__builtin_mul_overflow(a,b,&n)) return NULL;
	void* p = alloc(n);
	return p ? memset(p,0,n) : NULL;
}
void* realloc(void* p, size_t n) {
	if(!p) return alloc(n);
	struct block* b = find(p);
	if(!b) die("fence: an unknown block is resized\n");
	size_t old = b->n;
	void* q = alloc(n);
	if(!q) return NULL;
	memcpy(q,p,old < n ? old : n);
	release(p);
	return q;
}
void* __wrap_malloc(size_t n) { return alloc(n); }
void __wrap_free(void* p) { release(p); }
void* __wrap_calloc(size_t a, size_t b) { return calloc(a,b); }
void* __wrap_realloc(void* p, size_t n) { return realloc(p,n); }
char* __wrap_strdup(const char* s) { size_t n = strlen(s)+1; char* p = alloc(n); return p ? memcpy(p,s,n) : NULL; }

long fence_live(void) { return nlive; }
void fence_forget(void) { while(nlive) release(live[nlive-1].p); }
long fence_refused(void) { return refused; }
void fence_arm(long k) { count = 0; refused = 0; fail_at = k; }
