/*
 * PNG and JPEG through the library's own readers (C20): every colour type, depth, interlacing and coding process decodes to the
 * picture encoded; as a still it is one frame long; damage is reported or harmless; faults are survived.
 */
#include "mc.h"
#include "resdet.h"
#include "codec.h"
#include "wrap.h"
#include <malloc.h>

static struct pic pic;
static void mk(int k, int opt, size_t w, size_t h, char* name, size_t n) {
	if(k < NPNG) { mk_png(&pic,w,h,k,opt & 1,k); png_name(name,n,k,opt & 1); }
	else { mk_jpeg(&pic,w,h,opt,3); snprintf(name,n,"JPEG%s%s%s%s%s",opt & 1 ? " colour" : " gray",opt & 2 ? " progressive" : "",opt & 4 ? " with restarts" : "",opt & 8 ? " subsampled" : "",opt & 16 ? " arithmetic" : ""); }
}
static void check(const char* what, const float* b) {
	for(size_t i = 0; i < pic.w*pic.h; i++) if(!px_equal(b[i],pic.want[0][i],pic.tol))
		mc_fail("pixels","%s: pixel (%zu,%zu) is %.7g, encoded as %.7g",what,i%pic.w,i/pic.w,b[i],pic.want[0][i]);
}
static void held(const char* what) {
	if(wr_nlive) mc_fail("leak","%s: %d blocks are never released",what,wr_nlive);
	if(wr_nfile) mc_fail("file-leak","%s: %d files are left open",what,wr_nfile);
	if(wr_badclose) mc_fail("stdin-closed","%s",what);
}
static void start(void) { wr_reset(); wr_nlive = wr_nfile = 0; wr_badclose = 0; wr_fopen_hook = NULL; wr_fopen_deny = 0; }

static void decode(void) {
	char what[300];
	int k = mc_choose(NPNG+1), opt; size_t w, h;
	static const struct { size_t w, h; } large[] = {{255,3},{256,2},{257,2},{1,257},{2,256},{300,200},{1000,70},{4097,2},{1,4097},{65500,1},{3,65500},{20001,3},{1023,1025}};
	int big = mc_choose(3); png_extra = jpeg_extra = 0;
	if(big == 2) {
		/* whatever else there is in the file */
		static const int wh[][2] = {{13,7},{40,30},{1,1},{300,2},{17,64}}; int z = mc_choose(MC_Q(3,5)), x = 1+mc_choose(63); w = wh[z][0]; h = wh[z][1];
		if(k < NPNG) { opt = mc_choose(2); png_extra = x; }
		else { opt = mc_choose(32); jpeg_extra = x; if((opt & 8) && !(opt & 1) || !(opt & 1) && x & 26 || x & 2 && (opt & 8 || x & 16) || x & 8 && (opt & 2) || x & 16 && opt & 8) mc_skip(); if(x & 32 && opt & 16) mc_skip(); }
		big = 0;
	}
	else if(big) { int z = mc_choose(MC_Q(12,13)); w = large[z].w; h = large[z].h; opt = mc_choose(k < NPNG ? 2 : MC_Q(16,32)); if(k == NPNG && (opt & 8) && !(opt & 1)) mc_skip(); }
	else if(k < NPNG) { opt = mc_choose(2); w = 1+mc_choose(MC_Q(11,19)); h = 1+mc_choose(MC_Q(11,19)); }
	else { opt = mc_choose(32); w = 1+mc_choose(MC_Q(18,22)); h = 1+mc_choose(MC_Q(18,22)); if((opt & 8) && !(opt & 1)) mc_skip(); }
	mc_mine();
	char nm[100]; mk(k,opt,w,h,nm,sizeof nm);
	static const int kinds[] = {SRC_FILE,SRC_READER,SRC_TYPED,SRC_PIPE,SRC_PIPE5};
	for(int s = 0; s < 5; s++) {
		if(big && s != 0 && s != 3 + (h & 1)) continue;
		struct source src; size_t ow = 9, oh = 9; float* b = NULL; RDError e = 77;
		snprintf(what,sizeof what,"%s %zux%zu from %s",nm,w,h,src_name[kinds[s]]);
		start();
		source_open(&src,kinds[s],pic.b.p,pic.b.n,s == 0 && k == NPNG && w & 1 ? "jpeg" : pic.ext); mc_step();
		RDImage* im = LIB(source_image(&src,pic.reader,&ow,&oh,&b,&e));
		if(!im || e) mc_fail("open","%s: error %d",what,e);
		if(ow != w || oh != h) mc_fail("dims","%s: opened as %zux%zu",what,ow,oh);
		memset(b,0xa5,w*h*4);
		if(!LIB(resdet_read_image_frame(im,b,&e)) || e) mc_fail("read","%s: error %d",what,e);
		check(what,b);
		if(LIB(resdet_read_image_frame(im,b,&e)) || e) mc_fail("end","%s: reading past the only frame: error %d",what,e);
		LIBV(resdet_close_image(im)); free(b);
		source_close(&src); held(what);
		if(s == 1) continue;
		source_open(&src,kinds[s],pic.b.p,pic.b.n,pic.ext); size_t n = 9; mc_step();
		e = LIB(resdet_read_image(src.name,src.type,&b,&n,&ow,&oh));
		if(e || n != 1 || ow != w || oh != h) mc_fail("read-image","%s: error %d, %zu frames of %zux%zu",what,e,n,ow,oh);
		check(what,b); free(b); source_close(&src); held(what);
	}
	mc_outcome(mc_hash(pic.b.p,pic.b.n,0)); mc_nontriv++;
	if(mc_want_sample()) mc_sample("%s: as encoded",what);
	pic_free(&pic);
}
static uint64_t prog_n; static bool prog_bad;
static void progress(void* c, uint64_t k) { (void)c; if(k != ++prog_n) prog_bad = true; }
static void cursor(void) {
	int k = mc_choose(3), kind = mc_choose(2) ? SRC_PIPE : SRC_FILE, len = MC_Q(4,6), pos = 0; char nm[100];
	static const uint64_t seeks[] = {0,1,2,UINT64_MAX,(uint64_t)1 << 32};
	int o0 = mc_choose(6);
	mc_mine();
	mk(k == 0 ? 0 : k == 1 ? 5 : NPNG,k == 1,9,5,nm,sizeof nm);
	struct source s; size_t w, h; float* b = NULL; RDError e;
	start(); source_open(&s,kind,pic.b.p,pic.b.n,pic.ext);
	RDImage* im = LIB(source_image(&s,pic.reader,&w,&h,&b,&e));
	if(!im) mc_fail("open","%s: error %d",nm,e);
	for(int i = 0; i < len; i++) {
		int op = i ? mc_choose(7) : o0; if(op == 6) break;
		e = 77; mc_step();
		if(op == 0) {
			bool r = LIB(resdet_read_image_frame(im,b,&e));
			if(e || r != (pos == 0)) mc_fail("read","%s: read at %d gives %d, error %d",nm,pos,r,e);
			if(r) { check(nm,b); pos = 1; }
		}
		else {
			uint64_t o = seeks[op-1], left = 1-pos; prog_n = 0; prog_bad = false;
			bool r = LIB(resdet_seek_frame(im,o,progress,NULL,&e)); uint64_t mv = o < left ? o : left;
			mc_trace("seek %llu at %d -> %d",(unsigned long long)o,pos,r);
			if(e || r != (o <= left) || prog_n != mv || prog_bad) mc_fail("seek","%s: seek by %llu at %d gives %d, error %d, %llu progress calls",nm,(unsigned long long)o,pos,r,e,(unsigned long long)prog_n);
			pos += mv;
		}
	}
	LIBV(resdet_close_image(im)); free(b); source_close(&s); held(nm);
	mc_outcome(mc_hashi(k*10+kind,o0)); mc_nontriv++;
	pic_free(&pic);
}
/* ---- damage ---- */
struct got { RDError oe, e; bool r; size_t w, h; float px[MAXPIX]; };
static struct got G0, G1;
static void attempt(struct got* g, const unsigned char* p, size_t n, int kind, const char* what) {
	struct source s; float* b = NULL; memset(g,0,sizeof *g); g->e = 77;
	start(); source_open(&s,kind,p,n,pic.ext); mc_step();
	RDImage* im = LIB(source_image(&s,pic.reader,&g->w,&g->h,&b,&g->oe));
	if(!im != !!g->oe) mc_fail("contract","%s: handle %p, error %d",what,(void*)im,g->oe);
	if(!im && (b || g->w || g->h)) mc_fail("contract","%s: outputs left set",what);
	if(im) {
		if(g->w*g->h > 4000000) { LIBV(resdet_close_image(im)); free(b); source_close(&s); g->oe = RDETOOBIG; held(what); return; } /* damaged size: reading it is possible but pointless */
		g->r = LIB(resdet_read_image_frame(im,b,&g->e));
		if(g->r != !g->e) mc_fail("contract","%s: read gives %d with error %d",what,g->r,g->e);
		if(g->r && g->w*g->h <= MAXPIX) memcpy(g->px,b,g->w*g->h*4);
		if(g->r) for(size_t i = 0; i < g->w*g->h; i++) if(!(b[i] >= 0 && b[i] <= 1.00001f)) mc_fail("range","%s: pixel %zu is %g",what,i,b[i]);
		RDError e2 = 77;
		if(LIB(resdet_read_image_frame(im,b,&e2)) || e2) mc_fail("after","%s: read after the only frame: error %d",what,e2);
		LIBV(resdet_close_image(im)); free(b);
	}
	source_close(&s); held(what);
}
static void damage(void) {
	char nm[100], what[300];
	static const int ks[] = {0,2,5,10,19,4,15}; /* PNG kinds */
	int k = mc_choose(9), opt = k < 7 ? mc_choose(2) : k == 7 ? mc_choose(2)*2 : 1+mc_choose(2)*2, how = mc_choose(2);
	mk(k < 7 ? ks[k] : NPNG,opt,6,5,nm,sizeof nm);
	size_t at = mc_choose(pic.b.n); int x = 0;
	static const int xs[] = {1,0x20,0x80,0xff,2,4,8,0x10,0x40,0x55};
	if(how) x = xs[mc_choose(MC_Q(4,10))];
	mc_mine();
	size_t n = how ? pic.b.n : at;
	if(how) pic.b.p[at] ^= x;
	snprintf(what,sizeof what,how ? "%s 6x5 with byte %zu changed by 0x%02x" : "%s 6x5 cut to %zu bytes",nm,at,x);
	attempt(&G0,pic.b.p,n,SRC_FILE,what);
	attempt(&G1,pic.b.p,n,SRC_PIPE,what);
	mc_trace("%s: open %d, read %d error %d",what,G0.oe,G0.r,G0.e);
	if(!!G0.oe != !!G1.oe || G0.r != G1.r || G0.w != G1.w || G0.h != G1.h || (G0.r && memcmp(G0.px,G1.px,sizeof G0.px))) mc_fail("inconsistent","%s: file: %d %d, pipe: %d %d",what,G0.oe,G0.e,G1.oe,G1.e);
	/* without its signature it is no image of the kind */
	if(at < (k < 7 ? 8 : 2) && (G0.oe != RDEINVAL || G1.oe != RDEINVAL)) mc_fail("signature","%s: opening gives %d and %d, not RDEINVAL",what,G0.oe,G1.oe);
	if(k < 7) {
		/* a PNG is protected by checksums: damage is either reported or without effect */
		if(G0.r) {
			if(!how) mc_fail("truncated","%s: read without an error",what);
			if(G0.w != pic.w || G0.h != pic.h) mc_fail("misread","%s: read as %zux%zu",what,G0.w,G0.h);
			check(what,G0.px);
		}
	}
	else if(!how && at < 20 && !G0.oe) mc_fail("truncated","%s: opens",what);
	mc_outcome(mc_hashi(k*10000+at,x+opt*1000)); mc_nontriv++;
	if(mc_want_sample()) mc_sample("%s: open error %d, read error %d",what,G0.oe,G0.e);
	pic_free(&pic);
}
/* ---- memory and I/O faults ---- */
static FILE* io_fopen(const char* p, const char* m);
static struct memstream fm; static size_t fm_failat, fm_chunk;
static FILE* io_fopen(const char* p, const char* m) { (void)p; (void)m; FILE* f = ms_open(&fm,pic.b.p,pic.b.n,true,fm_chunk); fm.fail_at = fm_failat; return f; }
static void faults(void) {
	char nm[100], what[300];
	int k = mc_choose(4), io = mc_choose(2);
	mk(k == 0 ? 0 : k == 1 ? 5 : NPNG,k == 1 ? 1 : k == 3 ? 3 : 0,14,9,nm,sizeof nm);
	if(io) {
		static const size_t ch[] = {0,1,7}; fm_chunk = MC_PICK(ch);
		fm_failat = mc_choose(pic.b.n+1);
		mc_mine();
		start(); wr_fopen_hook = io_fopen;
		snprintf(what,sizeof what,"%s in pieces of %zu, read error at offset %zu of %zu",nm,fm_chunk,fm_failat,pic.b.n);
		size_t w, h; float* b = NULL; RDError e = 77, e2 = 0; char name[20]; snprintf(name,sizeof name,"x.%s",pic.ext); mc_step();
		RDImage* im = LIB(resdet_open_image(name,NULL,&w,&h,&b,&e)); bool r = false;
		if(im) { r = LIB(resdet_read_image_frame(im,b,&e2)); if(r != !e2) mc_fail("contract","%s: read %d with error %d",what,r,e2); if(r && (k < 2 || fm_failat == pic.b.n)) check(what,b); LIBV(resdet_close_image(im)); }
		else if(!e || b) mc_fail("contract","%s: no handle, error %d",what,e);
		if(k < 2 && r != (fm_failat >= pic.b.n)) mc_fail("io","%s: %s",what,r ? "read without an error" : "not read");
		free(b); held(what);
	}
	else {
		int n = 1+mc_choose(6), later = mc_choose(2), kind = mc_choose(2) ? SRC_PIPE : SRC_FILE, whole = mc_choose(2);
		mc_mine();
		start(); wr_fopen_deny = 1; wr_fail[0] = later ? 0 : n; wr_from = later ? n : 0;
		snprintf(what,sizeof what,"%s from %s, request %d%s fails",nm,src_name[kind],n,later ? " and all later" : "");
		struct source s; source_open(&s,kind,pic.b.p,pic.b.n,pic.ext); size_t w = 9, h = 9, c = 0; float* b = (void*)1; RDError e = 77, e2 = 0; mc_step();
		if(whole) {
			e = LIB(resdet_read_image(s.name,s.type,&b,&c,&w,&h));
			if(e ? !!b : c != 1) mc_fail("contract","%s: error %d, %zu frames, %p",what,e,c,(void*)b);
			if(!e) check(what,b);
		}
		else {
			RDImage* im = LIB(resdet_open_image(s.name,s.type,&w,&h,&b,&e));
			if(!im != !!e || (!im && (b || w || h))) mc_fail("contract","%s: handle %p, error %d",what,(void*)im,e);
			if(im) { bool r = LIB(resdet_read_image_frame(im,b,&e2)); if(r != !e2) mc_fail("contract","%s: read %d, error %d",what,r,e2); if(r) check(what,b); LIBV(resdet_close_image(im)); if(e2) e = e2; }
		}
		mc_trace("%s (%s) -> %d",what,wr_lastwhat,e);
		if(!!e != !!wr_failed && !(wr_failed && !e)) mc_fail("oom","%s: error %d with %d failures",what,e,wr_failed);
		if(e && e != RDENOMEM && !(e == -EMFILE && strstr(wr_lastwhat,"fopen"))) mc_fail("oom-error","%s (%s): error %d",what,wr_lastwhat,e);
		free(b); source_close(&s); held(what);
	}
	mc_outcome(mc_hashi(k,fm_failat)); mc_nontriv++;
	pic_free(&pic);
}
/* ---- whatever is opened and closed again and again, memory does not grow ---- */
static void memory(void) {
	char nm[100], what[300]; int k = mc_choose(NPNG+2), opt = k < NPNG ? mc_choose(2) : k == NPNG ? mc_choose(4) : 4+mc_choose(4), kind = mc_choose(2) ? SRC_PIPE : SRC_FILE, cut = mc_choose(6), script = mc_choose(3);
	mc_mine();
	mk(k < NPNG ? k : NPNG,opt,40,30,nm,sizeof nm);
	size_t n = cut ? cut == 5 ? 5 : pic.b.n*cut/5 : pic.b.n, use[8];
	snprintf(what,sizeof what,"%s from %s, %zu bytes of %zu, %s",nm,src_name[kind],n,pic.b.n,script == 0 ? "read" : script == 1 ? "skipped" : "only opened");
	start();
	for(int i = 0; i < 8; i++) {
		struct source s; size_t w, h; float* b = NULL; RDError e;
		source_open(&s,kind,pic.b.p,n,pic.ext); mc_step();
		RDImage* im = LIB(source_image(&s,pic.reader,&w,&h,&b,&e));
		if(im) { if(script == 0) LIB(resdet_read_image_frame(im,b,&e)); else if(script == 1) LIB(resdet_seek_frame(im,1,NULL,NULL,&e)); LIBV(resdet_close_image(im)); }
		free(b); source_close(&s);
		use[i] = mallinfo2().uordblks;
	}
	for(int i = 3; i < 7; i++) if(use[i+1] <= use[i]) { mc_outcome(mc_hashi(k*100+opt*6+cut,script)); mc_nontriv++; pic_free(&pic); return; }
	mc_fail("memory","%s: %zu bytes more are held each time",what,use[7]-use[6]);
}
static void mc_case(void) {
	png_extra = jpeg_extra = 0;
	switch(mc_choose(5)) { case 4: memory(); break; case 0: decode(); break; case 1: cursor(); break; case 2: damage(); break; default: faults(); }
}
