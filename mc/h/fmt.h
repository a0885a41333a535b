/*
 * fmt.h - encoders for the built-in image formats, written from the formats' definitions, that keep what the decoder should return.
 */
#ifndef FMT_H
#define FMT_H
#include "io.h"
#define MAXPIX 512 /* of the images whose pixels the harnesses keep in arrays of their own */
#define MAXFRAMES 320
#define RESFRAMES 6   /* frames whose pixels a harness keeps for comparison */

struct pic {
	struct buf b;
	const char* ext,* reader;
	size_t w, h; int n;                 /* n frames */
	float* want[MAXFRAMES];
	size_t hdr;                         /* length of the file header (PGM, PFM: including the first frame's) */
	size_t end[MAXFRAMES+1];            /* offset after frame i; end[-1+1] = where frame 0 starts */
	double tol;
	bool still;                         /* the format holds one frame */
};
static void pic_want(struct pic* p, int f) { p->want[f] = malloc(p->w*p->h*sizeof(float)+1); }
static void pic_free(struct pic* p) { free(p->b.p); for(int f = 0; f < MAXFRAMES && p->want[f]; f++) free(p->want[f]); memset(p,0,sizeof *p); }

/* sample k of frame f, 0..max; every byte value turns up, in an order that is no simple ramp */
static unsigned fmt_sample(size_t k, int f, int salt, unsigned max) {
	uint64_t x = (k+1)*2654435761u + f*40503u + salt*977u;
	x ^= x >> 13; x *= 0x9e3779b97f4a7c15ull; x ^= x >> 29;
	return x % ((uint64_t)max+1);
}
/* "pre" is what is between the magic number and the sizes (white space and comments), s1 and s2 separators, s3 the single last one */
static void mk_pgm(struct pic* p, size_t w, size_t h, unsigned max, int salt, const char* pre, const char* s1, const char* s2, const char* s3, int first) {
	memset(p,0,sizeof *p); p->ext = "pgm"; p->reader = "PGM"; p->w = w; p->h = h; p->n = 1; p->still = true; p->tol = 1e-6;
	buf_fmt(&p->b,"P5%s%zu%s%zu%s%u%s",pre,w,s1,h,s2,max,s3);
	p->hdr = p->end[0] = p->b.n; pic_want(p,0);
	for(size_t i = 0; i < w*h; i++) {
		unsigned v = !i && first >= 0 ? first : fmt_sample(i,0,salt,max);
		buf_byte(&p->b,v);
		p->want[0][i] = (double)v/max;
	}
	p->end[1] = p->b.n;
}
static float fmt_float(size_t k, int f, int salt) {
	static const float sp[] = {0.f,-0.f,1.f,-1.f,1e-40f,3.4e38f,-2.5f,1e-7f};
	unsigned v = fmt_sample(k,f,salt,1 << 20);
	return v % 5 == 0 ? sp[v/5%8] : (v/1048576.f*4-2);
}
/* fmtmask bit f: frame f is colour, endmask bit f: frame f is big endian */
static void mk_pfm_frame(struct pic* p, int f, bool color, bool big, int salt, const char* pre, const char* scale, bool plain) {
	buf_fmt(&p->b,"P%c%s%zu %zu\n%s%s\n",color ? 'F' : 'f',pre,p->w,p->h,big ? "" : "-",scale);
	if(!f) p->hdr = p->end[0] = p->b.n;
	pic_want(p,f);
	for(size_t y = p->h; y > 0; y--) for(size_t x = 0; x < p->w; x++) {
		size_t i = (y-1)*p->w+x;
		if(!color) { float v = plain ? fmt_sample(i,f,salt,255)/255.f : fmt_float(i,f,salt); buf_be(&p->b,v,big); p->want[f][i] = v; }
		else {
			double s = 0;
			for(int c = 0; c < 3; c++) { float v = fmt_sample(i*3+c,f,salt,1023)/512.f-1; buf_be(&p->b,v,big); s += v; }
			p->want[f][i] = s/3;
		}
	}
	p->end[f+1] = p->b.n; p->n = f+1;
}
static void mk_pfm(struct pic* p, size_t w, size_t h, int n, int colormask, int bigmask, int salt, const char* pre, const char* scale, bool plain) {
	memset(p,0,sizeof *p); p->ext = "pfm"; p->reader = "PFM"; p->w = w; p->h = h; p->tol = colormask ? 1e-6 : 0;
	for(int f = 0; f < n; f++) mk_pfm_frame(p,f,colormask >> f%16 & 1,bigmask >> f%16 & 1,salt,pre,scale,plain);
}
/* colour spaces: name, horizontal and vertical chroma divisors (0 = none), chroma planes, depth */
struct csp { const char* tag; int dx, dy, planes, depth; };
static const struct csp csps[] = {
	{"",2,2,2,8}, {"C420jpeg",2,2,2,8}, {"C420",2,2,2,8}, {"C420mpeg2",2,2,2,8}, {"C420paldv",2,2,2,8}, {"C411",4,1,2,8}, {"C422",2,1,2,8}, {"C444",1,1,2,8},
	{"C444alpha",1,1,3,8}, {"Cmono",0,0,0,8},
	{"C420p9",2,2,2,9}, {"C420p10",2,2,2,10}, {"C420p12",2,2,2,12}, {"C420p14",2,2,2,14}, {"C420p16",2,2,2,16},
	{"C422p9",2,1,2,9}, {"C422p10",2,1,2,10}, {"C422p12",2,1,2,12}, {"C422p14",2,1,2,14}, {"C422p16",2,1,2,16},
	{"C444p9",1,1,2,9}, {"C444p10",1,1,2,10}, {"C444p12",1,1,2,12}, {"C444p14",1,1,2,14}, {"C444p16",1,1,2,16},
	{"Cmono9",0,0,0,9}, {"Cmono10",0,0,0,10}, {"Cmono12",0,0,0,12}, {"Cmono14",0,0,0,14}, {"Cmono16",0,0,0,16}, {"C420p8",2,2,2,8}, {"Cmono8",0,0,0,8},
};
#define NCSP ((int)(sizeof csps/sizeof *csps))
/* header orders; %C is the colour space tag */
static const char* const y4m_heads[] = {"W%W H%H %C","H%H W%W %C","%C W%W H%H","W%W H%H F25:1 Ip A1:1 %C","F30000:1001 W%W It %C A0:0 H%H XYSCSS=X W9 is not here","W%W  H%H %C ","A128:117 XFOO=BAR W%W Im H%H %C F0:0"};
static void mk_y4m(struct pic* p, size_t w, size_t h, int n, int c, const char* head, const char* fparam, int salt) {
	memset(p,0,sizeof *p); p->ext = "y4m"; p->reader = "Y4M"; p->w = w; p->h = h; p->tol = 1e-6; p->n = n;
	const struct csp* cs = &csps[c];
	buf_str(&p->b,"YUV4MPEG2 ");
	for(const char* s = head; *s; s++) {
		if(*s != '%') buf_byte(&p->b,*s);
		else switch(*++s) { case 'W': buf_fmt(&p->b,"%zu",w); break; case 'H': buf_fmt(&p->b,"%zu",h); break; case 'C': buf_str(&p->b,cs->tag); break; }
	}
	buf_str(&p->b,"\n");
	p->hdr = p->end[0] = p->b.n;
	unsigned max = (1u << cs->depth)-1; size_t cw = cs->dx ? (w+cs->dx-1)/cs->dx : 0, ch = cs->dy ? (h+cs->dy-1)/cs->dy : 0;
	for(int f = 0; f < n; f++) {
		pic_want(p,f); buf_str(&p->b,"FRAME"); buf_str(&p->b,fparam); buf_str(&p->b,"\n");
		for(size_t i = 0; i < w*h; i++) {
			unsigned v = fmt_sample(i,f,salt,max);
			buf_byte(&p->b,v & 255); if(cs->depth > 8) buf_byte(&p->b,v >> 8);
			p->want[f][i] = (double)v/max;
		}
		/* chroma that looks like frame headers */
		size_t nb = cw*ch*cs->planes*(cs->depth > 8 ? 2 : 1);
		for(size_t i = 0; i < nb; i++) buf_byte(&p->b,"FRAME\n"[i % 6]);
		p->end[f+1] = p->b.n;
	}
}
static void mk_y4m_heads(struct pic* p, size_t w, size_t h, int n, int c, int head, int salt) {
	/* the "W9 is not here" text would be parsed as parameters: drop it */
	char t[200]; strcpy(t,y4m_heads[head]); char* x = strstr(t," W9"); if(x) *x = 0;
	mk_y4m(p,w,h,n,c,t,"",salt);
}

/* one of every kind */
static void mk_any(struct pic* p, int f, int n, size_t w, size_t h) {
	switch(f) {
		case 0: mk_pgm(p,w,h,255,3,"\n"," ","\n","\n",-1); break;
		case 1: mk_pfm(p,w,h,n,0,0,3,"\n","1.0",true); break;
		case 2: mk_pfm(p,w,h,n,0xff,0xff,3,"\n","1.0",true); break;
		case 3: mk_pfm(p,w,h,n,0x2a,0x2c,3,"\n","1.0",true); break;  /* gray first, then alternating */
		case 4: mk_pfm(p,w,h,n,0x15,0x19,3,"\n","1.0",true); break;  /* colour first */
		case 5: mk_y4m(p,w,h,n,9,"W%W H%H %C","",3); break;
		case 6: mk_y4m(p,w,h,n,2,"W%W H%H %C"," Ip",3); break;
		case 7: mk_y4m(p,w,h,n,12,"W%W H%H %C","",3); break;
		default: mk_y4m(p,w,h,n,8,"W%W H%H %C","",3); break;
	}
}
#define NFMT 9
static const char* const fmt_name[] = {"PGM","PFM gray","PFM colour","PFM mixed, gray first","PFM mixed, colour first","Y4M mono","Y4M 420","Y4M 420p12","Y4M 444alpha"};

/* ---- the ways a file can reach the library ---- */
enum { SRC_FILE, SRC_READER, SRC_TYPED, SRC_SEEKABLE, SRC_PIPE, SRC_PIPE1, SRC_PIPE5, NSRC };
static const char* const src_name[] = {"file","file, reader named","file with another extension, type given","seekable stream","pipe","pipe, one byte at a time","pipe, five bytes at a time"};
struct source { int kind; char* path; const char* name,* type; struct memstream ms; };
static void source_open(struct source* s, int kind, const void* p, size_t n, const char* ext) {
	memset(s,0,sizeof *s); s->kind = kind;
	if(kind <= SRC_TYPED) {
		s->path = scratch_file(kind == SRC_TYPED ? "dat" : ext); write_file(s->path,p,n);
		s->name = s->path; s->type = kind == SRC_TYPED ? ext : NULL;
	}
	else {
		stdin_from(&s->ms,p,n,kind == SRC_SEEKABLE,kind == SRC_PIPE1 ? 1 : kind == SRC_PIPE5 ? 5 : 0);
		s->name = "-"; s->type = ext;
	}
}
static RDImage* source_image(struct source* s, const char* reader, size_t* w, size_t* h, float** b, RDError* e) {
	return s->kind == SRC_READER ? resdet_open_image_with_reader(s->name,reader,w,h,b,e) : resdet_open_image(s->name,s->type,w,h,b,e);
}
static void source_close(struct source* s) { if(s->kind > SRC_TYPED) stdin_restore(); }

static bool px_equal(float got, float want, double tol) {
	if(tol == 0) return !memcmp(&got,&want,4);
	return fabs((double)got-want) <= tol*fmax(1,fabs(want));
}
#endif
