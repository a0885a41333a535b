/*
 * Error reporting and output contract (C09): for every combination of requested and omitted outputs and every cause of failure,
 * the call reports a fitting error, every requested output is cleared (never left as it was), nothing is allocated, and NULL
 * where the documentation allows it is harmless.  Also: every error value has a description, and the method table is well formed.
 */
#include "mc.h"
#include "ref.h"
#include "io.h"

#define POISON ((void*)0x5a5a5a5a)
static float img[64], nanimg[64];
static const char* good_pgm = "P5\n3 2\n255\nabcdef";

static void outputs_clear(const char* what, RDResolution* rw, size_t cw, RDResolution* rh, size_t ch, int mask) {
	if((mask & 1 && rw) || (mask & 4 && rh)) mc_fail("outputs","%s: a result list is left set after an error (mask %d)",what,mask);
	if((mask & 2 && cw) || (mask & 8 && ch)) mc_fail("outputs","%s: a count is left set after an error (mask %d)",what,mask);
}
static void outputs_ok(const char* what, RDResolution* rw, size_t cw, RDResolution* rh, size_t ch, int mask) {
	if(mask & 1) { if(!rw || rw == POISON || cw < 1 || cw > 100) mc_fail("outputs","%s: no width list after success (mask %d)",what,mask); else free(rw); }
	else if(rw != POISON) mc_fail("outputs","%s: writes an output that was not given (mask %d)",what,mask);
	if(mask & 4) { if(!rh || rh == POISON || ch < 1 || ch > 100) mc_fail("outputs","%s: no height list after success (mask %d)",what,mask); else free(rh); }
	else if(rh != POISON) mc_fail("outputs","%s: writes an output that was not given (mask %d)",what,mask);
}
static bool badmask(int mask) { return (mask & 1 && !(mask & 2)) || (mask & 4 && !(mask & 8)); }

static void mc_case(void) {
	if(!img[1]) for(int i = 0; i < 64; i++) { img[i] = ref_noise(i,0,0); nanimg[i] = i == 5 ? NAN : 0.5; }
	int space = mc_choose(6);
	char what[300];
	if(space == 0 || space == 1) {
		/* result-producing calls: every output mask x every cause */
		int mask = mc_choose(16), cause, m = mc_choose(4);
		RDResolution* rw = POISON,* rh = POISON; size_t cw = 0x5a, ch = 0x5a; RDError e, want = RDEOK, want2 = RDEOK; mc_step();
		RDMethod* me = resdet_get_method(ref_method_name[m]);
#define OUTS (mask & 1 ? &rw : NULL),(mask & 2 ? &cw : NULL),(mask & 4 ? &rh : NULL),(mask & 8 ? &ch : NULL)
		if(space == 0) {
			static const char* const causes[] = {"none","no image","no frames","zero width","zero height","zero size","huge width","huge height","overflowing size","NaN pixel","no image and no frames"};
			cause = mc_choose(11);
			mc_mine();
			snprintf(what,sizeof what,"one-call detection, %s",causes[cause]);
			size_t big = (size_t)1 << 40;
			switch(cause) {
				case 0: e = resdetect(img,1,8,8,OUTS,me,NULL); break;
				case 1: e = resdetect(NULL,1,8,8,OUTS,me,NULL); want = RDEPARAM; break;
				case 2: e = resdetect(img,0,8,8,OUTS,me,NULL); want = RDENOIMG; break;
				case 3: e = resdetect(img,1,0,8,OUTS,me,NULL); want = RDEINVAL; break;
				case 4: e = resdetect(img,1,8,0,OUTS,me,NULL); want = RDEINVAL; break;
				case 5: e = resdetect(img,1,0,0,OUTS,me,NULL); want = RDEINVAL; break;
				case 6: e = resdetect(img,1,SIZE_MAX,2,OUTS,me,NULL); want = RDETOOBIG; break;
				case 7: e = resdetect(img,1,2,SIZE_MAX,OUTS,me,NULL); want = RDETOOBIG; break;
				case 8: e = resdetect(img,1,big,big,OUTS,me,NULL); want = RDETOOBIG; break;
				case 9: e = resdetect(nanimg,1,8,8,OUTS,me,NULL); want = RDEINVAL; break;
				default: e = resdetect(NULL,0,8,8,OUTS,me,NULL); want = RDEPARAM; want2 = RDENOIMG; break;
			}
			if(cause == 9) want2 = RDEINVAL;
		}
		else {
			static const char* const causes[] = {"none","missing file","no filename","empty file","corrupt header","truncated data","non-finite pixel","directory","no frames","too big"};
			cause = mc_choose(10);
			mc_mine();
			snprintf(what,sizeof what,"file detection, %s",causes[cause]);
			char* f = scratch_file(cause == 6 ? "pfm" : cause == 8 ? "y4m" : "pgm"); unlink(f);
			const char* name = f; struct buf b = {0};
			switch(cause) {
				case 0: write_file(f,good_pgm,strlen(good_pgm)); break;
				case 1: want = -ENOENT; break;
				case 2: name = NULL; want = RDEPARAM; break;
				case 3: write_file(f,"",0); want = RDEINVAL; break;
				case 4: write_file(f,"P5\nx y\n255\nabcdef",17); want = RDEINVAL; break;
				case 5: write_file(f,good_pgm,strlen(good_pgm)-1); want = RDEINVAL; break;
				case 6: enc_pfm(&b,nanimg,8,8,false); write_file(f,b.p,b.n); want = RDEINVAL; break;
				case 7: name = mc_scratch; want = RDEINVAL; break;
				case 8: write_file(f,"YUV4MPEG2 W2 H2 Cmono\n",22); want = RDENOIMG; break;
				default: buf_fmt(&b,"P5\n%zu %zu\n255\n",(size_t)1 << 40,(size_t)1 << 40); write_file(f,b.p,b.n); want = RDETOOBIG; break;
			}
			e = resdetect_file(name,cause == 7 ? "pgm" : NULL,OUTS,me,NULL);
			if(cause == 7 && e < 0) want = e; /* a directory may be refused by opening or by reading */
			free(b.p);
		}
		if(badmask(mask)) { if(!want) want = RDEPARAM; else want2 = want, want = RDEPARAM; }
		mc_trace("%s, mask %d -> %d",what,mask,e);
		if(e != want && !(want2 && e == want2)) mc_fail("error","%s, output mask %d: error %d, expected %d",what,mask,e,want);
		if(e) outputs_clear(what,rw,cw,rh,ch,mask);
		else outputs_ok(what,rw,cw,rh,ch,mask);
		mc_outcome(mc_hashi(space*1000+cause*16+mask,e)); mc_nontriv += !!e;
		if(mc_want_sample()) mc_sample("%s, output mask %d -> error %d",what,mask,e);
	}
	else if(space == 2) {
		/* open: every mask of width, height, buffer, error x cause x function */
		static const char* const causes[] = {"none","missing file","no filename","empty file","corrupt header","zero size","too big","unknown reader","no reader name","not the reader's format"};
		int mask = mc_choose(16), cause = mc_choose(10), with = mc_choose(2), fmt = mc_choose(3);
		if((cause == 7 || cause == 8) && !with) mc_skip();
		mc_mine();
		const char* ext = fmt == 0 ? "pgm" : fmt == 1 ? "pfm" : "y4m",* reader = fmt == 0 ? "PGM" : fmt == 1 ? "PFM" : "Y4M";
		char* f = scratch_file(ext); unlink(f);
		const char* head = fmt == 0 ? "P5\n%s %s\n255\n" : fmt == 1 ? "Pf\n%s %s\n-1.0\n" : "YUV4MPEG2 W%s H%s Cmono\n";
		struct buf b = {0}; RDError want = RDEOK, want2 = RDEOK; const char* name = f;
		snprintf(what,sizeof what,"open%s %s, %s",with ? " with reader" : "",ext,causes[cause]);
		switch(cause) {
			case 0: buf_fmt(&b,head,"3","2"); if(fmt == 2) buf_str(&b,"FRAME\n"); buf_raw(&b,img,24); break;
			case 1: want = -ENOENT; break;
			case 2: name = NULL; want = RDEPARAM; break;
			case 3: want = RDEINVAL; write_file(f,"",0); break;
			case 4: buf_fmt(&b,head,"a","2"); want = RDEINVAL; break;
			case 5: buf_fmt(&b,head,"0","2"); want = RDETOOBIG; want2 = RDEINVAL; break; /* zero size: either complaint fits */
			case 6: buf_fmt(&b,head,"9000000000000","9000000000000"); want = RDETOOBIG; break;
			case 7: reader = "nosuchreader"; want = RDEUNSUPP; break;
			case 8: reader = NULL; want = RDEPARAM; break;
			default: buf_str(&b,"\x89PNG\r\n\x1a\n            "); want = RDEINVAL; break;
		}
		if(b.n) write_file(f,b.p,b.n);
		if((mask & 3) != 3) { want2 = want; want = RDEPARAM; }
		size_t w = 0x5a, h = 0x5a; float* buf = POISON; RDError e = 0x5a; mc_step();
		RDImage* i = with ? resdet_open_image_with_reader(name,reader,mask & 1 ? &w : NULL,mask & 2 ? &h : NULL,mask & 4 ? &buf : NULL,mask & 8 ? &e : NULL)
		                  : resdet_open_image(name,NULL,mask & 1 ? &w : NULL,mask & 2 ? &h : NULL,mask & 4 ? &buf : NULL,mask & 8 ? &e : NULL);
		mc_trace("%s mask %d -> %p error %d",what,mask,(void*)i,e);
		if(!!i != !want) mc_fail("open","%s, mask %d: handle %s",what,mask,i ? "returned, failure expected" : "not returned");
		if(mask & 8 && e != want && !(want2 && e == want2)) mc_fail("error","%s, mask %d: error %d, expected %d",what,mask,e,want);
		if(!i) {
			if((mask & 1 && w) || (mask & 2 && h) || (mask & 4 && buf)) mc_fail("outputs","%s, mask %d: outputs left set after an error",what,mask);
		}
		else {
			if(w != 3 || h != 2) mc_fail("dims","%s: opened as %zux%zu",what,w,h);
			if(mask & 4) { if(!buf || buf == POISON) mc_fail("outputs","%s: no buffer",what); else free(buf); }
			float px[6];
			if(!resdet_read_image_frame(i,px,mask & 8 ? &e : NULL)) mc_fail("read","%s: cannot read without some outputs (mask %d)",what,mask);
			if(resdet_read_image_frame(i,NULL,&e) || e != RDEPARAM) mc_fail("read-null","%s: reading into NULL gives error %d",what,e);
			e = 77;
			if(!resdet_seek_frame(i,0,NULL,NULL,mask & 8 ? &e : NULL) || (mask & 8 && e)) mc_fail("seek","%s: seek by 0 fails",what);
			resdet_close_image(i);
		}
		free(b.p); mc_nontriv += !i;
		mc_outcome(mc_hashi(cause*100+mask,with*10+fmt));
		if(mc_want_sample()) mc_sample("%s, mask %d -> error %d",what,mask,e);
	}
	else if(space == 3) {
		/* create: size grid around every limit, error pointer optional */
		static const size_t sz[] = {0,1,2,5,0x7fffffff,0x80000000,0xffffffff,0x100000000,(size_t)1<<40,SIZE_MAX/4,SIZE_MAX/2,SIZE_MAX-1,SIZE_MAX};
		size_t w = MC_PICK(sz), h = MC_PICK(sz); int m = mc_choose(5), pp = mc_choose(2), ep = mc_choose(2);
		mc_mine();
		__uint128_t area = (__uint128_t)w*h;
		RDParameters* p = pp ? resdet_alloc_default_parameters() : NULL; RDError e = 0x5a; mc_step();
		/* sizes whose coefficients fit in an address space are refused by the transform's limit or for want of memory (2 GB here) */
		bool ok = area && area <= 64, odd = area && area*4 <= SIZE_MAX && !ok;
		RDAnalysis* a = resdet_create_analysis(m ? resdet_get_method(ref_method_name[m-1]) : NULL,w,h,p,ep ? &e : NULL);
		free(p);
		mc_trace("create %zux%zu -> %p %d",w,h,(void*)a,e);
		if(!!a != ok) mc_fail("create","create %zux%zu: %s",w,h,a ? "succeeds" : "fails");
		if(ep && e != (ok ? RDEOK : !area ? RDEINVAL : RDETOOBIG) && !(odd && e == RDENOMEM)) mc_fail("create-error","create %zux%zu: error %d",w,h,e);
		resdet_destroy_analysis(a);
		mc_outcome(mc_hashi(w,h)); mc_nontriv += !a;
	}
	else if(space == 4) {
		/* NULL handles, read_image errors, tables */
		mc_mine();
		RDError e = 77; float px[4]; mc_step();
		if(resdet_read_image_frame(NULL,px,&e) || e != RDEPARAM) mc_fail("null-handle","read: %d",e);
		e = 77;
		if(resdet_seek_frame(NULL,1,NULL,NULL,&e) || e != RDEPARAM) mc_fail("null-handle","seek: %d",e);
		if(resdet_read_image_frame(NULL,px,NULL) || resdet_seek_frame(NULL,0,NULL,NULL,NULL)) mc_fail("null-handle","succeeds");
		resdet_close_image(NULL); resdet_destroy_analysis(NULL);
		if(resdet_analyze_image(NULL,px) != RDEPARAM) mc_fail("null-handle","analyze");
		for(int mask = 0; mask < 16; mask++) {
			RDResolution* rw = POISON,* rh = POISON; size_t cw = 9, ch = 9;
			if(resdet_analysis_results(NULL,OUTS) != RDEPARAM) mc_fail("null-handle","results");
			outputs_clear("results of no analysis",rw,cw,rh,ch,mask);
		}
		static const char* const files[] = {"/nonexistent/x.pgm","","nothing"};
		for(int i = 0; i < 3; i++) {
			float* im = POISON; size_t n = 9, w = 9, h = 9;
			e = resdet_read_image(files[i],"pgm",&im,&n,&w,&h);
			if(e != -ENOENT || im || n || w || h) mc_fail("read-image","missing file: error %d, image %p, %zu %zux%zu",e,(void*)im,n,w,h);
		}
		for(int cut = 0; cut < (int)strlen(good_pgm); cut++) {
			char* f = scratch_file("pgm"); write_file(f,good_pgm,cut);
			float* im = POISON; size_t n = 9, w = 9, h = 9;
			e = resdet_read_image(f,NULL,&im,&n,&w,&h);
			if(e != RDEINVAL || im) mc_fail("read-image","truncated file: error %d, image %p",e,(void*)im);
		}
		/* method table */
		RDMethod* m = resdet_methods(); int cnt = 0;
		if(!m || resdet_get_method(NULL) != m) mc_fail("methods","the default method is not the first one");
		for(; m && m->name; m++, cnt++) {
			if(resdet_get_method(m->name) != m) mc_fail("methods","lookup of %s",m->name);
			if(!(m->threshold > 0 && m->threshold <= 1)) mc_fail("methods","threshold of %s is %g",m->name,m->threshold);
			for(RDMethod* q = resdet_methods(); q != m; q++) if(!strcmp(q->name,m->name)) mc_fail("methods","%s is listed twice",m->name);
			char t[40]; snprintf(t,sizeof t,"%sx",m->name);
			if(resdet_get_method(t)) mc_fail("methods","lookup of %s succeeds",t);
			snprintf(t,sizeof t,"%.*s",(int)strlen(m->name)-1,m->name);
			RDMethod* q = resdet_get_method(t);
			if(q && strcmp(q->name,t)) mc_fail("methods","lookup of %s finds %s",t,q->name);
		}
		for(int i = 0; i < 4; i++) { RDMethod* q = resdet_get_method(ref_method_name[i]); if(!q || q->threshold != ref_method_threshold[i]) mc_fail("methods","method %s",ref_method_name[i]); }
		if(resdet_get_method("") || resdet_get_method("nosuch") || cnt < 4) mc_fail("methods","lookup of an unknown method succeeds");
		if(resdet_default_range() != 12) mc_fail("default-range","%zu",resdet_default_range());
		if(!resdet_libversion() || !*resdet_libversion()) mc_fail("version","empty");
		const char* const* rd = resdet_list_image_readers();
		for(int i = 0; i < 3; i++) if(!rd[i] || strcmp(rd[i],(const char*[]){"PGM","PFM","Y4M"}[i])) mc_fail("readers","list of image readers");
		mc_nontriv++;
	}
	else {
		/* every error value has a description */
		static const int special[] = {INT32_MAX,INT32_MAX-1,1000000,-INT32_MAX,-100000};
		int part = mc_choose(64);
		mc_mine();
		int max = resdet_get_max_error();
		if(max < RDENOIMG) mc_fail("max-error","%d",max);
		for(int k = 0; k < 64; k++) {
			int v = part*64+k-2048; mc_step();
			const char* s = resdet_error_str(v); static char copy[200];
			if(v < 0 && s) s = strncpy(copy,s,199); /* strerror() may reuse its buffer */
			if(v < 0 ? (!s || strcmp(s,strerror(-v))) : v > max ? s != NULL : (!s || (v ? !*s : *s))) mc_fail("error-str","description of %d is %s",v,s ? s : "missing");
			for(int u = 0; u < v && v <= max; u++) if(!strcmp(resdet_error_str(u),s)) mc_fail("error-str","%d and %d share a description",u,v);
		}
		if(part < 5) { const char* s = resdet_error_str(special[part]); if(special[part] < 0 ? !s : !!s) mc_fail("error-str","description of %d",special[part]); }
		mc_outcome(part);
	}
}
