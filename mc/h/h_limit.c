/*
 * Builds with a size limit and another default range (C18): every entry point, size and format on either side of the limit.
 * Compiled with MC_LIMIT (0: none) and MC_RANGE as the library was.
 */
#include "mc.h"
#include "ref.h"
#include "codec.h"
#define LIM ((unsigned __int128)(MC_LIMIT ? MC_LIMIT : SIZE_MAX))
static const char* build(void) { static char b[80]; snprintf(b,sizeof b,"PIXEL_MAX %zu, DEFAULT_RANGE %zu",(size_t)LIM,(size_t)MC_RANGE); return b; }

static float* noise(size_t w, size_t h, int n, int salt) { float* f = malloc(sizeof(float)*(w*h*n+1)); for(size_t i = 0; i < w*h*n; i++) f[i] = ref_noise(i,n,salt); return f; }

/* analyses of images in memory */
static void one_size(size_t w, size_t h) {
	unsigned __int128 px = (unsigned __int128)w*h; bool fits = px <= LIM; int method = mc_choose(MC_Q(2,4)); mc_mine();
	RDMethod* m = resdet_get_method(ref_method_name[method]); RDError e = 77; RDParameters* p = resdet_alloc_default_parameters(); resdet_parameters_set_threshold(p,0);
	mc_step(); RDAnalysis* a = resdet_create_analysis(m,w,h,p,&e);
	if(!w || !h) { MC_CHECK(!a && e == RDEINVAL,"empty","%s: an analysis of %zux%zu gives %d",build(),w,h,e); resdet_destroy_analysis(a); free(p); return; }
	if(fits && px <= 1 << 20) MC_CHECK(a && !e,"refused","%s: an analysis of %zux%zu is refused (%d)",build(),w,h,e);
	else if(fits) MC_CHECK(a ? !e : e == RDENOMEM || e == RDETOOBIG,"refused","%s: an analysis of %zux%zu gives %d",build(),w,h,e);
	else MC_CHECK(!a && e == RDETOOBIG,"accepted","%s: an analysis of %zux%zu gives %s, %d",build(),w,h,a ? "a handle" : "nothing",e);
	mc_outcome(mc_hashi(w,mc_hashi(h,mc_hashi(e,method))));
	if(fits && px <= 1 << 20 && a) {
		float* im = noise(w,h,3,5); RDResolution* r[2],* s[2]; size_t c[2], d[2];
		for(int f = 0; f < 3; f++) { mc_step(); e = resdet_analyze_image(a,im+f*w*h); if(e) mc_fail("analyze","%s: error %d",build(),e); }
		e = resdet_analysis_results(a,&r[0],&c[0],&r[1],&c[1]); if(e) mc_fail("results","%s: error %d",build(),e);
		/* three images at once: each of them fits */
		mc_step(); RDError e2 = resdetect(im,3,w,h,&s[0],&d[0],&s[1],&d[1],m,p);
		MC_CHECK(!e2,"together","%s: resdetect refuses three images of %zux%zu (%d)",build(),w,h,e2);
		for(int k = 0; k < 2 && !e && !e2; k++) {
			MC_CHECK(res_equal(r[k],c[k],s[k],d[k]),"together","%s: %zux%zu: resdetect gives other results",build(),w,h);
			/* number of candidates with the default range */
			size_t first, n = ref_candidates(k ? h : w,MC_RANGE,method,&first);
			MC_CHECK(c[k] == n+1,"candidates","%s: %zux%zu, %s: %zu results at threshold 0, the default range leaves %zu candidates",build(),w,h,ref_method_name[method],c[k],n);
			if(n) mc_nontriv++;
		}
		if(!e) { free(r[0]); free(r[1]); } if(!e2) { free(s[0]); free(s[1]); }
		free(im);
	}
	else if(!fits) {
		RDResolution* r[2] = {(void*)1,(void*)1}; size_t c[2] = {9,9}; float one = 0;
		mc_step(); e = resdetect(&one,1,w,h,&r[0],&c[0],&r[1],&c[1],m,p);
		MC_CHECK(e == RDETOOBIG && !r[0] && !r[1] && !c[0] && !c[1],"accepted","%s: resdetect of %zux%zu gives %d",build(),w,h,e);
		mc_nontriv++;
	}
	if(mc_want_sample()) mc_sample("%s: analysis of %zux%zu: %s",build(),w,h,fits ? "fits" : "too big");
	mc_trace("%s: %zux%zu",build(),w,h);
	resdet_destroy_analysis(a); free(p);
}
static void case_small(void) { size_t n = MC_Q(34,70); size_t w = mc_choose(n), h = mc_choose(n); one_size(w,h); }
static void case_big(void) {
	static const size_t d[] = {1,2,3,100,255,256,65535,65536,65600,INT_MAX/3,INT_MAX/3+1ul,INT_MAX,INT_MAX+1ul,UINT32_MAX,UINT32_MAX+1ul,SIZE_MAX/8,SIZE_MAX/8+1,SIZE_MAX/4,SIZE_MAX/4+1,SIZE_MAX/2,SIZE_MAX/2+1,SIZE_MAX-1,SIZE_MAX};
	size_t w = MC_PICK(d), h = MC_PICK(d); unsigned __int128 px = (unsigned __int128)w*h;
	/* what fits and is larger than this would really be allocated */
	if(px <= LIM && px > 1 << 20 && px < (unsigned __int128)1 << 40) mc_skip();
	one_size(w,h);
}
/* the default range is the one the library says */
static void case_range(void) {
	size_t w = 1+mc_choose(80); int method = mc_choose(4), how = mc_choose(3); mc_mine();
	MC_CHECK(resdet_default_range() == MC_RANGE,"default-range","%s: the default range is said to be %zu",build(),resdet_default_range());
	if(w*4 > LIM) mc_skip();
	float* im = noise(w,4,1,9); RDMethod* m = resdet_get_method(ref_method_name[method]); RDResolution* r[2],* s[2]; size_t c[2], d[2];
	RDParameters* p = resdet_alloc_default_parameters(),* q = resdet_alloc_default_parameters(); if(how == 2) resdet_parameters_set_threshold(p,0), resdet_parameters_set_threshold(q,0);
	resdet_parameters_set_range(q,MC_RANGE);
	mc_step(); RDError e = resdetect(im,1,w,4,&r[0],&c[0],&r[1],&c[1],m,how ? p : NULL); mc_step(); RDError e2 = resdetect(im,1,w,4,&s[0],&d[0],&s[1],&d[1],m,q);
	MC_CHECK(!e && !e2,"error","%s: %zux4: %d, %d",build(),w,e,e2);
	if(!e && !e2) for(int k = 0; k < 2; k++) { MC_CHECK(res_equal(r[k],c[k],s[k],d[k]),"default-range","%s, %s, %zux4: default parameters do not give what range %d gives",build(),ref_method_name[method],w,MC_RANGE); mc_outcome(res_hash(r[k],c[k],w)); free(r[k]); free(s[k]); }
	free(p); free(q); free(im);
}
/* files of every format */
static const char* const ftype[] = {"PGM","PFM","colour PFM","Y4M","mono Y4M","16 bit 444alpha Y4M","PNG","RGBA PNG","JPEG"};
static void mk(struct pic* p, int f, size_t w, size_t h, int n) {
	switch(f) {
		case 0: mk_pgm(p,w,h,255,3,"\n"," ","\n","\n",-1); break;
		case 1: mk_pfm(p,w,h,n,0,0,3,"\n","1.0",true); break;
		case 2: mk_pfm(p,w,h,n,0xff,0,3,"\n","1.0",true); break;
		case 3: mk_y4m(p,w,h,n,1,"W%W H%H %C","",3); break;
		case 4: mk_y4m(p,w,h,n,9,"W%W H%H %C","",3); break;
		case 5: mk_y4m(p,w,h,n,8,"W%W H%H %C","",3); break;
		case 6: mk_png(p,w,h,0,0,3); break;
		case 7: mk_png(p,w,h,13,1,3); break;
		default: mk_jpeg(p,w,h,0,3); break;
	}
}
static void case_file(void) {
	int f = mc_choose(9); size_t w = 1+mc_choose(MC_Q(9,20)), h = 1+mc_choose(MC_Q(8,20)); int n = f == 0 || f >= 6 ? 1 : 1+mc_choose(MC_Q(3,5)); mc_mine(); int kind = mc_choose(2) ? SRC_PIPE : SRC_FILE;
	struct pic p; struct source s; mk(&p,f,w,h,n);
	bool fits = w*h <= LIM; size_t gw = 9, gh = 9; float* b = (void*)1; RDError e = 77;
	source_open(&s,kind,p.b.p,p.b.n,p.ext); mc_step(); RDImage* im = source_image(&s,NULL,&gw,&gh,&b,&e);
	if(fits) {
		MC_CHECK(im && !e && gw == w && gh == h && b,"open-refused","%s: a %s of %zux%zu is refused (%d)",build(),ftype[f],w,h,e);
		for(int i = 0; im && i < n; i++) { mc_step(); bool ok = resdet_read_image_frame(im,b,&e); MC_CHECK(ok && !e && px_equal(b[w*h-1],p.want[i][w*h-1],p.tol),"frame","%s: frame %d of a %s of %zux%zu: %d",build(),i,ftype[f],w,h,e); }
	}
	else { MC_CHECK(!im && e == RDETOOBIG && !b && !gw && !gh,"open-accepted","%s: a %s of %zux%zu: %s, error %d, %zux%zu",build(),ftype[f],w,h,im ? "opened" : "not opened",e,gw,gh); mc_nontriv++; }
	resdet_close_image(im); free(b); source_close(&s);
	/* all at once */
	source_open(&s,kind,p.b.p,p.b.n,p.ext); size_t nn = 99; mc_step(); e = resdet_read_image(s.name,s.type,&b,&nn,&gw,&gh); source_close(&s);
	size_t total = w*h*n;
	if(total <= LIM) {
		MC_CHECK(!e && nn == (size_t)n && gw == w && gh == h && b,"read-refused","%s: reading a %s of %d frames of %zux%zu gives %d, %zu frames",build(),ftype[f],n,w,h,e,nn);
		for(int i = 0; !e && i < n; i++) MC_CHECK(px_equal(b[i*w*h],p.want[i][0],p.tol),"frame","%s: frame %d of a %s of %zux%zu read as a whole differs",build(),i,ftype[f],w,h);
	}
	else if(!fits) MC_CHECK(e == RDETOOBIG && !b,"read-accepted","%s: reading a %s of %zux%zu gives %d",build(),ftype[f],w,h,e);
	else { /* each frame fits but not all of them together: all or an error */
		MC_CHECK(e ? e == RDETOOBIG && !b : nn == (size_t)n && b,"read-part","%s: reading a %s of %d frames of %zux%zu gives %d, %zu frames",build(),ftype[f],n,w,h,e,nn);
		if(e) mc_nontriv++;
	}
	mc_outcome(mc_hashi(f,mc_hashi(w,mc_hashi(h,mc_hashi(n,e)))));
	if(b) free(b);
	/* and detected from */
	RDResolution* r[2]; size_t c[2];
	source_open(&s,kind,p.b.p,p.b.n,p.ext); mc_step(); e = resdetect_file(s.name,s.type,&r[0],&c[0],&r[1],&c[1],NULL,NULL); source_close(&s);
	MC_CHECK(e == (fits ? RDEOK : RDETOOBIG),"detect","%s: resdetect_file of a %s of %d frames of %zux%zu gives %d",build(),ftype[f],n,w,h,e);
	free(r[0]); free(r[1]); if(s.path) unlink(s.path);
	mc_trace("%s: %s of %d frames of %zux%zu",build(),ftype[f],n,w,h);
	if(mc_want_sample()) mc_sample("%s: %s of %d frames of %zux%zu",build(),ftype[f],n,w,h);
	pic_free(&p);
}
/* headers that announce sizes around the limit and beyond what can be addressed, over little data */
static void case_head(void) {
	static const unsigned long long d[] = {1,2,3,65535,65536,65537,INT_MAX,INT_MAX+1ull,UINT32_MAX,UINT32_MAX+1ull,SIZE_MAX/16,SIZE_MAX/4,SIZE_MAX/4+1,SIZE_MAX/3,SIZE_MAX/2,SIZE_MAX/2+1,SIZE_MAX-1,SIZE_MAX};
	int f = mc_choose(4); size_t w = MC_PICK(d), h = MC_PICK(d); unsigned __int128 px = (unsigned __int128)w*h; mc_mine(); int kind = mc_choose(2) ? SRC_PIPE : SRC_FILE;
	if(px <= LIM && px > 1 << 24 && px < (unsigned __int128)1 << 44) mc_skip();
	char t[300]; const char* ext = f == 0 ? "pgm" : f < 3 ? "pfm" : "y4m";
	snprintf(t,sizeof t,f == 0 ? "P5\n%zu %zu\n255\n" : f == 1 ? "Pf\n%zu %zu\n-1.0\n" : f == 2 ? "PF\n%zu %zu\n-1.0\n" : "YUV4MPEG2 W%zu H%zu C444\nFRAME\n",w,h);
	strcat(t,"some data and some more of it");
	struct source s; size_t gw = 9, gh = 9; float* b = (void*)1; RDError e = 77; source_open(&s,kind,t,strlen(t),ext); mc_step();
	RDImage* im = source_image(&s,NULL,&gw,&gh,&b,&e);
	if(im) MC_CHECK(px <= LIM && gw == w && gh == h && b && px < (unsigned __int128)1 << 60,"open-accepted","%s: a %s header of %zux%zu is accepted as %zux%zu",build(),ext,w,h,gw,gh);
	else {
		MC_CHECK(e && !b && !gw && !gh,"open-error","%s: a %s header of %zux%zu: error %d, sizes %zux%zu",build(),ext,w,h,e,gw,gh);
		/* sizes that fit are refused only if memory runs out, the others as too big */
		if(px > LIM) MC_CHECK(e == RDETOOBIG,"open-error","%s: a %s header of %zux%zu, beyond the limit: error %d",build(),ext,w,h,e);
		else if(px <= 1 << 20) mc_fail("open-refused","%s: a %s header of %zux%zu is refused (%d)",build(),ext,w,h,e);
	}
	if(im && px > 100) { mc_step(); bool ok = resdet_read_image_frame(im,b,&e); MC_CHECK(!ok && e,"short","%s: a frame of %zux%zu out of 30 bytes",build(),w,h); }
	resdet_close_image(im); free(b); source_close(&s); if(s.path) unlink(s.path);
	mc_outcome(mc_hashi(f,mc_hashi(w,mc_hashi(h,e)))); mc_nontriv += px > LIM;
}
/* dimensions past what the transform can count, while there is enough memory: refused for what they are */
static void case_huge(void) {
	static const size_t d[] = {INT_MAX+1ul,INT_MAX+2ul,INT_MAX+13ul,3000000000ul,UINT32_MAX-4ul,UINT32_MAX,UINT32_MAX+1ul,UINT32_MAX+2ul,UINT32_MAX+6ul,UINT32_MAX+101ul,
#ifdef MC_KISS
		INT_MAX/3+1ul,INT_MAX/3+2ul,1ul << 30,INT_MAX-1ul,INT_MAX,
#endif
	};
	size_t l = MC_PICK(d); bool tr = mc_choose(2), null = mc_choose(2); int method = mc_choose(4), range = mc_choose(2); mc_mine();
	void* probe = malloc(l*sizeof(double)); bool room = probe; free(probe);
	RDParameters* p = resdet_alloc_default_parameters(); resdet_parameters_set_range(p,range ? l/2-1 : 12);
	RDError e = 77; mc_step(); RDAnalysis* a = resdet_create_analysis(resdet_get_method(ref_method_name[method]),tr ? 1 : l,tr ? l : 1,null ? NULL : p,&e);
	MC_CHECK(!a && (e == RDETOOBIG || (e == RDENOMEM && !room)),"huge","%s: an analysis of %zux%zu gives %s, error %d, with memory %s",build(),tr ? (size_t)1 : l,tr ? l : (size_t)1,a ? "a handle" : "nothing",e,room ? "to spare" : "short");
	resdet_destroy_analysis(a); free(p); mc_nontriv += room; mc_outcome(mc_hashi(l,mc_hashi(tr,e)));
	mc_trace("%s: huge %zu",build(),l); if(mc_want_sample()) mc_sample("%s: huge %s %zu, memory %s: error %d",build(),tr ? "height" : "width",l,room ? "to spare" : "short",e);
}
static void mc_case(void) {
	if(!strcmp(mc_mode,"huge")) { case_huge(); return; }
	switch(mc_choose(5)) { case 0: case_small(); break; case 1: case_big(); break; case 2: case_range(); break; case 3: case_file(); break; default: case_head(); }
}
