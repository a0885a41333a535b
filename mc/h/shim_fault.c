/*
 * Linked into a program and its copy of the library: MC_FAULT says what goes wrong and MC_COUNT where to note, at the end,
 * how many allocations and opened files there were and whether the fault happened.
 *   mK   allocation K fails          MK   allocations from K on fail
 *   iK   reading standard input fails at byte K          sK   seek K fails
 *   oK   opening file K fails        rF:K reading file F fails at byte K        wF:K writing file F fails at byte K
 * (files are counted from 1 in the order of opening)
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/types.h>

static char kind; static long file, at; static int parsed, hit; static long allocs, opens, seeks;
static void parse(void) {
	if(parsed) return; parsed = 1;
	const char* s = getenv("MC_FAULT"); if(!s || !*s) return;
	char* e; kind = *s; at = strtol(s+1,&e,10);
	if(*e == ':') { file = at; at = strtol(e+1,NULL,10); }
}
static int deny(void) { parse(); allocs++; if((kind == 'm' && allocs == at) || (kind == 'M' && allocs >= at)) { hit = 1; errno = ENOMEM; return 1; } return 0; }
void* __real_malloc(size_t); void* __real_calloc(size_t,size_t); void* __real_realloc(void*,size_t); char* __real_strdup(const char*);
void* __real_aligned_alloc(size_t,size_t); int __real_posix_memalign(void**,size_t,size_t); FILE* __real_fopen(const char*,const char*);
__attribute__((weak)) void* __real_fftwf_malloc(size_t); __attribute__((weak)) float* __real_fftwf_alloc_real(size_t);
int __wrap_getrusage(int who, void* r) { memset(r,0,144); return 0; } /* no time passes */
void* __wrap_malloc(size_t n) { return deny() ? NULL : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return deny() ? NULL : __real_calloc(a,b); }
void* __wrap_realloc(void* p, size_t n) { return deny() ? NULL : __real_realloc(p,n); }
char* __wrap_strdup(const char* s) { return deny() ? NULL : __real_strdup(s); }
void* __wrap_aligned_alloc(size_t a, size_t n) { return deny() ? NULL : __real_aligned_alloc(a,n); }
int __wrap_posix_memalign(void** o, size_t a, size_t n) { return deny() ? ENOMEM : __real_posix_memalign(o,a,n); }
void* __wrap_fftwf_malloc(size_t n) { return deny() ? NULL : __real_fftwf_malloc(n); }
float* __wrap_fftwf_alloc_real(size_t n) { return deny() ? NULL : __real_fftwf_alloc_real(n); }

struct bad { FILE* f; long pos; };
static ssize_t bad_read(void* c, char* b, size_t n) {
	struct bad* x = c; long left = at-x->pos;
	if(left <= 0 && n) { hit = 1; errno = EIO; return -1; }
	if((long)n > left) n = left;
	size_t r = fread(b,1,n,x->f); x->pos += r; return r;
}
static ssize_t bad_write(void* c, const char* b, size_t n) {
	struct bad* x = c; long left = at-x->pos;
	if((long)n > left) { hit = 1; errno = ENOSPC; n = left > 0 ? left : 0; }
	size_t r = fwrite(b,1,n,x->f); x->pos += r; return r; /* a short count is an error to the stream */
}
int __real_fseek(FILE*,long,int);
static int bad_seek(void* c, off64_t* o, int w) { struct bad* x = c; if(__real_fseek(x->f,*o,w)) return -1; *o = x->pos = ftell(x->f); return 0; }
static int bad_close(void* c) { struct bad* x = c; return fclose(x->f); }
FILE* __wrap_fopen(const char* p, const char* m) {
	parse(); opens++;
	if(kind == 'o' && opens == at) { hit = 1; errno = EMFILE; return NULL; }
	FILE* f = __real_fopen(p,m);
	if(!f || opens != file || !strchr(kind == 'r' ? "r" : "wa",*m)) return f;
	static struct bad x; x.f = f; x.pos = 0;
	return fopencookie(&x,m,(cookie_io_functions_t){bad_read,bad_write,bad_seek,bad_close});
}
int __real_fseek(FILE*,long,int);
int __wrap_fseek(FILE* f, long o, int w) { parse(); seeks++; if(kind == 's' && seeks == at) { hit = 1; errno = EIO; return -1; } return __real_fseek(f,o,w); }
__attribute__((constructor)) static void begin(void) {
	parse(); if(kind != 'i') return;
	static struct bad x; x.f = stdin; stdin = fopencookie(&x,"r",(cookie_io_functions_t){bad_read,NULL,bad_seek,bad_close});
}
__attribute__((destructor)) static void count(void) {
	const char* p = getenv("MC_COUNT"); if(!p) return;
	char t[100]; int n = snprintf(t,sizeof t,"%ld %ld %d %ld\n",allocs,opens,hit,seeks);
	int fd = open(p,O_WRONLY|O_CREAT|O_TRUNC,0644); if(fd >= 0) { if(write(fd,t,n) != n) {} close(fd); }
}
