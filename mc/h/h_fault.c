/*
 * Environment faults, enumerated.
 *   oom: every allocation request (and opening of a file) of every entry point fails in turn, alone, in pairs, or from then on (C13)
 *   io:  every read of every input fails at every offset, every seek fails, in every way reads can be cut up (C14)
 */
#include "mc.h"
#include "ref.h"
#include "fmt.h"
#include "wrap.h"

static void leaks(const char* what) {
	if(wr_nlive) mc_fail("leak","%s: %d blocks are never released (failed: %s)",what,wr_nlive,wr_lastwhat);
	if(wr_nfile) mc_fail("file-leak","%s: %d files are left open (failed: %s)",what,wr_nfile,wr_lastwhat);
	if(wr_badclose) mc_fail("stdin-closed","%s: standard input is closed",what);
}
/* ---- scenarios: each returns a fingerprint of what the caller sees if all went well, or reports the error it got ---- */
struct out { RDError e; uint64_t fp; bool done; int failed_call; };
static float img[3][16*16];
static const struct { int w, h; } sizes[] = {{7,5},{14,11},{6,6},{1,13},{11,11},{26,3}};
static int P_m, P_s, P_f, P_kind;
static struct pic pic;

static uint64_t lists_fp(RDResolution* rw, size_t cw, RDResolution* rh, size_t ch) {
	uint64_t h = mc_hashi(cw*1000+ch,7);
	for(size_t i = 0; i < cw; i++) { int32_t c = lrintf(rw[i].confidence*1e4); h = mc_hashi(rw[i].index*100003+c,h); }
	for(size_t i = 0; i < ch; i++) { int32_t c = lrintf(rh[i].confidence*1e4); h = mc_hashi(rh[i].index*100003+c,h); }
	return h;
}
static RDParameters* params(void) { RDParameters* p = resdet_alloc_default_parameters(); resdet_parameters_set_range(p,2); resdet_parameters_set_threshold(p,0); return p; }
#define POISON ((void*)0x5a5a5a5a)
static void cleared(const char* what, RDResolution* rw, size_t cw, RDResolution* rh, size_t ch) { if(rw || cw || rh || ch) mc_fail("outputs","%s: outputs left set after an error (%p %zu %p %zu)",what,(void*)rw,cw,(void*)rh,ch); }

static struct out s_resdetect(void) {
	struct out o = {0}; RDParameters* p = params();
	RDResolution* rw = POISON,* rh = POISON; size_t cw = 9, ch = 9; mc_step();
	o.e = LIB(resdetect(img[0],2,sizes[P_s].w,sizes[P_s].h,&rw,&cw,&rh,&ch,resdet_get_method(ref_method_name[P_m]),p));
	if(o.e) cleared("resdetect",rw,cw,rh,ch); else o.fp = lists_fp(rw,cw,rh,ch);
	free(rw); free(rh); free(p); return o;
}
static struct out s_file(void) {
	struct out o = {0}; RDParameters* p = params(); struct source s; source_open(&s,P_kind,pic.b.p,pic.b.n,pic.ext);
	RDResolution* rw = POISON,* rh = POISON; size_t cw = 9, ch = 9; mc_step();
	o.e = LIB(resdetect_file(s.name,s.type,&rw,&cw,&rh,&ch,resdet_get_method(ref_method_name[P_m]),p));
	if(o.e) cleared("resdetect_file",rw,cw,rh,ch); else o.fp = lists_fp(rw,cw,rh,ch);
	free(rw); free(rh); free(p); source_close(&s); return o;
}
static struct out s_read(void) {
	struct out o = {0}; struct source s; source_open(&s,P_kind,pic.b.p,pic.b.n,pic.ext);
	float* im = POISON; size_t n = 9, w = 9, h = 9; mc_step();
	o.e = LIB(resdet_read_image(s.name,s.type,&im,&n,&w,&h));
	if(o.e) { if(im) mc_fail("outputs","read_image: images left set after error %d",o.e); }
	else o.fp = mc_hash(im,n*w*h*sizeof *im,n);
	free(im); source_close(&s); return o;
}
static struct out s_params(void) {
	struct out o = {0}; mc_step();
	RDParameters* p = LIB(resdet_alloc_default_parameters());
	if(!p) o.e = RDENOMEM; else o.fp = 1;
	free(p); return o;
}
/* open, seek, read, seek, read, close; a call that fails for want of memory is repeated and must then do what it would have done */
static struct out s_cursor(void) {
	struct out o = {0}; struct source s; source_open(&s,P_kind,pic.b.p,pic.b.n,pic.ext);
	size_t w = 9, h = 9; float* b = POISON; RDError e = 77; mc_step();
	RDImage* im = LIB(source_image(&s,pic.reader,&w,&h,&b,&e));
	if(!im) {
		if(!e || w || h || b) mc_fail("outputs","open: error %d with outputs %zu %zu %p",e,w,h,(void*)b);
		o.e = e; source_close(&s); return o;
	}
	if(e) mc_fail("outputs","open: handle with error %d",e);
	uint64_t fp = 1; bool r;
	for(int i = 0; i < 5; i++) {
		for(int t = 0; t < 2; t++) {
			e = 77; mc_step();
			if(i & 1) { r = LIB(resdet_read_image_frame(im,b,&e)); if(r) fp = mc_hash(b,w*h*4,fp); }
			else r = LIB(resdet_seek_frame(im,i/2,NULL,NULL,&e));
			if(!e) break;
			if(r) mc_fail("outputs","cursor: success with error %d",e);
			o.e = e; if(!o.failed_call) o.failed_call = i+1;
			wr_fail[0] = wr_fail[1] = wr_from = 0;
		}
		fp = mc_hashi(r*2+!!e,fp);
	}
	o.fp = fp; o.done = true; /* the history is complete whatever failed on the way */
	LIBV(resdet_close_image(im)); free(b); source_close(&s); return o;
}
/* an analysis over three frames with results in between; failed calls are repeated */
static bool orig_second;
static struct out s_handle(void) {
	struct out o = {0}; RDParameters* p = params(); RDError e = 77; orig_second = false; mc_step();
	RDAnalysis* a = LIB(resdet_create_analysis(resdet_get_method(ref_method_name[P_m]),sizes[P_s].w,sizes[P_s].h,p,&e));
	free(p);
	if(!a != !!e) mc_fail("outputs","create: handle %p, error %d",(void*)a,e);
	if(!a) { o.e = e; return o; }
	uint64_t fp = 1; static const char plan[] = "012r1r";
	for(const char* c = plan; *c; c++)
		for(int t = 0; t < 2; t++) {
			mc_step();
			if(*c == 'r') {
				RDResolution* rw = POISON,* rh = POISON; size_t cw = 9, ch = 9;
				e = LIB(resdet_analysis_results(a,&rw,&cw,&rh,&ch));
				if(e) cleared("results",rw,cw,rh,ch); else fp = mc_hashi(lists_fp(rw,cw,rh,ch),fp);
				free(rw); free(rh);
			}
			else {
				int f0 = wr_failed, t0 = wr_failed_fft; uint64_t n0 = wr_n;
				e = LIB(resdet_analyze_image(a,img[*c-'0']));
				if(wr_failed != f0 && wr_failed_fft == t0 && P_m == M_ORIG && e == RDENOMEM && wr_n-n0 >= 2 && sizes[P_s].w > 4) orig_second = true; /* the width had already been counted */
			}
			if(!e) break;
			o.e = e; wr_fail[0] = wr_fail[1] = wr_from = 0;
		}
	o.fp = fp; o.done = true;
	LIBV(resdet_destroy_analysis(a)); return o;
}

static struct out (*const scen[])(void) = {s_resdetect,s_file,s_read,s_params,s_cursor,s_handle};
static const char* const scen_name[] = {"one-call detection","file detection","reading an image","default parameters","cursor","analysis"};

static void oom(void) {
	if(!img[0][1]) for(int f = 0; f < 3; f++) for(int i = 0; i < 256; i++) img[f][i] = ref_noise(i,f,3);
	int sc = mc_choose(6);
	P_m = P_s = P_f = P_kind = 0;
	char what[300];
	if(sc == 0 || sc == 5) { P_m = mc_choose(4); P_s = mc_choose(6); snprintf(what,sizeof what,"%s, %dx%d, %s",scen_name[sc],sizes[P_s].w,sizes[P_s].h,ref_method_name[P_m]); }
	else if(sc != 3) {
		static const int kinds[] = {SRC_FILE,SRC_PIPE,SRC_READER};
		P_f = mc_choose(NFMT); P_kind = kinds[mc_choose(sc == 4 ? 3 : 2)]; P_m = sc == 1 ? mc_choose(4) : 0;
		snprintf(what,sizeof what,"%s, %s from %s",scen_name[sc],fmt_name[P_f],src_name[P_kind]);
	}
	else snprintf(what,sizeof what,"%s",scen_name[sc]);
	mc_mine();
	if(sc != 0 && sc != 5 && sc != 3) mk_any(&pic,P_f,4,7,6);
	wr_reset(); wr_nlive = wr_nfile = 0; wr_badclose = 0; wr_fopen_deny = 1;
	struct out ok = scen[sc]();
	if(ok.e) mc_fail("baseline","%s: error %d without any fault",what,ok.e);
	leaks(what);
	uint64_t n = wr_n;
	int k = n ? 1+mc_choose(n) : 0, mode = n ? mc_choose(3) : 0, k2 = 0;
	if(mode == 2) { if((uint64_t)k >= n) mc_skip(); k2 = k+1+mc_choose(n-k); }
	wr_reset(); wr_fail[0] = mode == 1 ? 0 : k; wr_fail[1] = k2; wr_from = mode == 1 ? k : 0;
	struct out o = scen[sc]();
	int failed = wr_failed, fft = wr_failed_fft; char last[64]; strcpy(last,wr_lastwhat);
	mc_trace("%s: %llu requests, failing %d%s (%s) -> error %d",what,(unsigned long long)n,k,mode == 1 ? " and all later ones" : mode == 2 ? " and one more" : "",last,o.e);
	bool same = o.fp == ok.fp;
	const char* fm = strstr(last,"plan") ? "plan" : strstr(last,"fopen") ? "fopen" : "";
	if(!failed) { if(o.e || !same) mc_fail("nondeterministic","%s: different without faults",what); }
	else if(fft && (!o.e || o.done) && !same) mc_fail("kiss-transform-alloc","%s: an allocation fails inside the transform (%s) and wrong results are returned without an error",what,last);
	else if(!o.e) { if(!same) mc_fail("oom-ignored","%s: request %d (%s) fails, no error is reported and the result differs",what,k,last); }
	else {
		if(o.e != RDENOMEM && !(*fm == 'p' && o.e == RDEINTERNAL) && !(*fm == 'f' && o.e == -EMFILE)) mc_fail("oom-error","%s: request %d (%s) fails, reported as error %d",what,k,last,o.e);
		if(o.done && !same) mc_fail(orig_second ? "orig-oom-second-dimension" : "oom-state","%s: request %d (%s) fails and is reported; after repeating the call the results differ from those without the failure",what,k,last);
	}
	leaks(what);
	mc_outcome(mc_hashi(sc*1000+k*3+mode,P_m*10000+P_s*1000+P_f*10+P_kind)); mc_nontriv += !!failed; mc_extra[0] += failed;
	if(mc_want_sample()) mc_sample("%s: allocation request %d of %llu fails%s -> error %d, nothing leaked, nothing left set",what,k,(unsigned long long)n,mode == 1 ? " and all later ones" : mode == 2 ? " and a later one" : "",o.e);
	pic_free(&pic);
}

/* ---- I/O faults ---- */
static struct memstream fm; static size_t fm_chunk, fm_failat, fm_len; static int fm_seekfail, fm_seeks;
static int fm_seek(void* c, off64_t* off, int wh) { if(++fm_seeks == fm_seekfail) { errno = EIO; return -1; } return ms_seek(c,off,wh); }
static FILE* fm_fopen(const char* p, const char* m) {
	(void)p; (void)m;
	fm = (struct memstream){ .p = pic.b.p, .n = fm_len, .seekable = true, .chunk = fm_chunk, .fail_at = fm_failat, .fail_errno = EIO };
	fm_seeks = 0;
	return fopencookie(&fm,"r",(cookie_io_functions_t){ .read = ms_read_past, .seek = fm_seek });
}
struct trace { RDError oe, e; int n; bool ok[RESFRAMES+1]; float px[RESFRAMES+1][MAXPIX]; bool end; };
static struct trace T;
/* pattern bit i: frame i is skipped instead of read */
static void io_run(int pattern, bool pipe) {
	memset(&T,0,sizeof T);
	struct memstream ms; size_t w, h; float* b = NULL; RDImage* im;
	wr_nlive = wr_nfile = 0; wr_badclose = 0; wr_fopen_hook = fm_fopen;
	mc_step();
	if(pipe) {
		stdin_from(&ms,pic.b.p,fm_len,false,fm_chunk); ms.fail_at = fm_failat;
		im = LIB(resdet_open_image("-",pic.ext,&w,&h,&b,&T.oe));
	}
	else {
		char name[20]; snprintf(name,sizeof name,"x.%s",pic.ext);
		im = LIB(resdet_open_image(name,NULL,&w,&h,&b,&T.oe));
	}
	if(!im != !!T.oe) mc_fail("contract","open: handle %p, error %d",(void*)im,T.oe);
	if(im) {
		for(;;) {
			RDError e = 77; bool sk = pattern >> T.n & 1, r; mc_step();
			if(sk) r = LIB(resdet_seek_frame(im,1,NULL,NULL,&e)); else r = LIB(resdet_read_image_frame(im,b,&e));
			if(r && e) mc_fail("contract","success with error %d",e);
			if(!r) { T.e = e; T.end = !e; break; }
			if(T.n >= RESFRAMES) { T.n++; break; }
			if(!sk) { T.ok[T.n] = true; memcpy(T.px[T.n],b,w*h*4); }
			T.n++;
		}
		LIBV(resdet_close_image(im));
	}
	free(b);
	if(pipe) stdin_restore();
}
static void io(void) {
	int f = mc_choose(NFMT), n = f ? 1+mc_choose(3) : 1, pat = mc_choose(1 << n), pipe = mc_choose(2);
	static const size_t chunks[] = {0,1,3,64}; fm_chunk = MC_PICK(chunks);
	mk_any(&pic,f,n,5,3);
	int what_fails = mc_choose(pipe ? 2 : 3); /* reads; nothing (only cut up); seeks */
	fm_failat = SIZE_MAX; fm_seekfail = 0; fm_len = pic.b.n;
	if(what_fails == 0) fm_failat = mc_choose(pic.b.n+1);
	else if(what_fails == 2) fm_seekfail = 1+mc_choose(6);
	mc_mine();
	char what[300]; snprintf(what,sizeof what,"%s of %d frames from a %s in pieces of %zu, skip mask %d, %s %zu",fmt_name[f],n,pipe ? "pipe" : "file",fm_chunk,pat,what_fails == 0 ? "read error at offset" : what_fails == 2 ? "failing seek number" : "no fault",what_fails == 0 ? fm_failat : (size_t)fm_seekfail);
	io_run(pat,pipe);
	mc_trace("%s: open %d, %d frames, then %s %d",what,T.oe,T.n,T.end ? "the end" : "error",T.e);
	if(T.n > n) mc_fail("extra","%s: more frames than there are",what);
	for(int i = 0; i < T.n; i++) if(T.ok[i]) for(size_t k = 0; k < pic.w*pic.h; k++)
		if(!px_equal(T.px[i][k],pic.want[i][k],pic.tol)) mc_fail("pixels","%s: frame %d, pixel %zu is %.9g, encoded as %.9g",what,i,k,T.px[i][k],pic.want[i][k]);
	if(what_fails == 1) { if(T.oe || T.n != n || !T.end) mc_fail("short-read","%s: open error %d, %d frames, then error %d",what,T.oe,T.n,T.e); }
	else if(what_fails == 0) {
		if(fm_failat < pic.hdr && !T.oe) mc_fail("io-ignored","%s: opened although the header (%zu bytes) cannot be read",what,pic.hdr);
		if(!T.oe) {
			/* frames that lie before the failing offset are good; the failure must not look like the end of the file */
			int full = 0; while(full < n && pic.end[full+1] <= fm_failat) full++;
			bool still = f == 0;
			/* a still need not be read to be skipped */
			if(still && (pat & 1)) { if(T.n != 1 || !T.end) mc_fail("io","%s: %d frames, error %d",what,T.n,T.e); }
			else if(still) { if(full ? (T.n != 1 || !T.end) : (T.n || T.end)) mc_fail("io-ignored","%s: %d frames, then error %d",what,T.n,T.e); }
			else if(T.n != full || T.end) mc_fail(T.end ? "io-ignored" : "io","%s: %d frames are read (%d can be), then %s %d",what,T.n,full,T.end ? "the end" : "error",T.e);
		}
	}
	else if(!T.oe && T.end && T.n != n) mc_fail("io-ignored","%s: a failing seek loses frames: %d of %d",what,T.n,n);
	if(wr_nlive || wr_nfile || wr_badclose) leaks(what);
	mc_outcome(mc_hashi(f*100+n*8+pat,what_fails*100000+fm_failat*4+fm_seekfail*7+fm_chunk)); mc_nontriv += what_fails != 1;
	if(mc_want_sample()) mc_sample("%s: open error %d, %d frames, then error %d",what,T.oe,T.n,T.e);
	pic_free(&pic);
}

static void mc_case(void) {
	if(!strcmp(mc_mode,"oom")) oom(); else io();
}
