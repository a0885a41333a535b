/*
 * io.h - byte buffers, scratch files, and streams whose environment answers are chosen: a replacement for standard input
 * backed by memory, with any chunk size, seekable or not, failing at any offset.
 */
#ifndef IO_H
#define IO_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>

struct buf { unsigned char* p; size_t n, cap; };
static void buf_raw(struct buf* b, const void* d, size_t n) {
	if(b->n+n > b->cap) { b->cap = (b->n+n)*2+64; b->p = realloc(b->p,b->cap); }
	memcpy(b->p+b->n,d,n); b->n += n;
}
static void buf_str(struct buf* b, const char* s) { buf_raw(b,s,strlen(s)); }
static void buf_fmt(struct buf* b, const char* fmt, ...) __attribute__((format(printf,2,3)));
static void buf_fmt(struct buf* b, const char* fmt, ...) { char t[512],* l; va_list ap; va_start(ap,fmt); int n = vsnprintf(t,sizeof t,fmt,ap); va_end(ap);
	if(n < (int)sizeof t) { buf_raw(b,t,n); return; }
	l = malloc(n+1); va_start(ap,fmt); vsnprintf(l,n+1,fmt,ap); va_end(ap); buf_raw(b,l,n); free(l);
}
static void buf_byte(struct buf* b, int c) { unsigned char x = c; buf_raw(b,&x,1); }
static void buf_be(struct buf* b, float f, bool big) {
	unsigned char c[4]; uint32_t u; memcpy(&u,&f,4);
	for(int i = 0; i < 4; i++) c[i] = u >> 8*(big ? 3-i : i);
	buf_raw(b,c,4);
}

/* ---- a memory backed stream ---- */
struct memstream { const unsigned char* p; size_t n, pos; bool seekable; size_t chunk; size_t fail_at; int fail_errno; size_t reads; bool failed; };
static ssize_t ms_read(void* c, char* out, size_t n) {
	struct memstream* m = c;
	m->reads++;
	if(m->pos >= m->fail_at) { m->failed = true; errno = m->fail_errno; return -1; }
	size_t left = m->n-m->pos;
	if(n > left) n = left;
	if(m->chunk && n > m->chunk) n = m->chunk;
	if(n > m->fail_at-m->pos) n = m->fail_at-m->pos;
	memcpy(out,m->p+m->pos,n);
	m->pos += n;
	return n;
}
static int ms_seek(void* c, off64_t* off, int whence) {
	struct memstream* m = c;
	if(!m->seekable) { errno = ESPIPE; return -1; }
	off64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t)m->pos : (off64_t)m->n;
	if(b+*off < 0) { errno = EINVAL; return -1; }
	m->pos = b+*off; /* like a file, past the end is allowed */
	if(m->pos > m->n) { *off = m->pos; return 0; }
	*off = m->pos;
	return 0;
}
static ssize_t ms_read_past(void* c, char* out, size_t n) { struct memstream* m = c; if(m->pos >= m->n && m->pos < m->fail_at) return 0; return ms_read(c,out,n); }
static FILE* real_stdin;
static FILE* ms_open(struct memstream* m, const void* p, size_t n, bool seekable, size_t chunk) {
	*m = (struct memstream){ .p = p, .n = n, .seekable = seekable, .chunk = chunk, .fail_at = SIZE_MAX, .fail_errno = EIO };
	return fopencookie(m,"r",(cookie_io_functions_t){ .read = ms_read_past, .seek = seekable ? ms_seek : NULL });
}
/* make the library's "-" read from this buffer */
static void stdin_from(struct memstream* m, const void* p, size_t n, bool seekable, size_t chunk) {
	if(!real_stdin) real_stdin = stdin;
	stdin = ms_open(m,p,n,seekable,chunk);
}
static void stdin_restore(void) { if(real_stdin && stdin != real_stdin) { fclose(stdin); stdin = real_stdin; } }

/* ---- scratch files ---- */
static char* scratch_file(const char* ext) {
	static char p[8][1100]; static int k;
	k = (k+1)%8;
	snprintf(p[k],sizeof p[k],"%s/f%d.%s",mc_scratch,k,ext);
	return p[k];
}
static void write_file(const char* path, const void* p, size_t n) {
	int fd = open(path,O_WRONLY|O_CREAT|O_TRUNC,0600);
	if(fd < 0) { perror(path); _exit(70); }
	for(size_t o = 0; o < n; ) { ssize_t r = write(fd,(const char*)p+o,n-o); if(r <= 0) { perror(path); _exit(70); } o += r; }
	close(fd);
}

/* ---- encoders, written from the format definitions ---- */
static void enc_pfm(struct buf* b, const float* img, size_t w, size_t h, bool big) {
	buf_fmt(b,"Pf\n%zu %zu\n%s\n",w,h,big ? "1.0" : "-1.0");
	for(size_t y = h; y > 0; y--) for(size_t x = 0; x < w; x++) buf_be(b,img[(y-1)*w+x],big); /* bottom row first */
}
#endif
