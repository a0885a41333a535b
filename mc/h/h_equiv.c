/*
 * Every entry point tells the same story (C07): for the same frames and options, sequential analysis, the one-call function,
 * file detection (by extension, by type, by MIME type, from standard input) and reading followed by one-call detection give
 * identical lists, or fail with the same error; omitted arguments mean their documented defaults; either dimension may be omitted.
 */
#include "mc.h"
#include "ref.h"
#include "io.h"

struct res { RDError e; RDResolution* r[2]; size_t n[2]; };
static void res_free(struct res* r) { free(r->r[0]); free(r->r[1]); }
static void same(const struct res* a, const struct res* b, const char* what, const char* desc, int mask) {
	if(a->e != b->e) { mc_fail("error-differs","%s: %s fails with %d, sequential analysis with %d",desc,what,b->e,a->e); return; }
	for(int d = 0; d < 2; d++) {
		if(!(mask & 1 << d)) continue;
		if(a->e) { if(b->r[d] || b->n[d]) mc_fail("outputs","%s: %s leaves outputs set on error %d",desc,what,b->e); continue; }
		if(!res_equal(a->r[d],a->n[d],b->r[d],b->n[d]))
			mc_fail("lists-differ","%s: the %s of %s (%zu entries, first %zu:%.7g) differ from sequential analysis (%zu entries, first %zu:%.7g)",desc,d ? "heights" : "widths",what,
				b->n[d],b->n[d] ? b->r[d][0].index : 0,b->n[d] ? b->r[d][0].confidence : 0,a->n[d],a->r[d][0].index,a->r[d][0].confidence);
	}
}
static struct res fresh(void) { return (struct res){ 55, {(void*)24,(void*)24}, {11,22} }; }

/* as many frames as a counter might not hold */
static void case_many(void) {
	static const struct { size_t w, h; } dims[] = {{1,1},{5,1},{3,4},{7,5}}; static const size_t ns[] = {255,256,257,1000,32767,32768,65535,65536,65537,66000,131073};
	int k = mc_choose(4), m = mc_choose(4); size_t nf = ns[mc_choose(MC_Q(10,11))]; mc_mine();
	size_t w = dims[k].w, h = dims[k].h;
	if(w*h > 20 && nf > 1000 && !mc_tier) mc_skip();
	char desc[100]; snprintf(desc,sizeof desc,"%zu frames of %zux%zu, method %s",nf,w,h,ref_method_name[m]); mc_trace("%s",desc);
	float* img = malloc(sizeof(float)*w*h*nf); struct buf b = {0}; buf_fmt(&b,"YUV4MPEG2 W%zu H%zu Cmono\n",w,h);
	for(size_t f = 0; f < nf; f++) {
		buf_str(&b,"FRAME\n");
		for(size_t i = 0; i < w*h; i++) { int v = (f < 3 ? ref_noise(i,f,5) : ref_noise(i,7+f/3%5,9))*255; img[f*w*h+i] = v/255.f; buf_byte(&b,v); }
	}
	RDMethod* me = resdet_get_method(ref_method_name[m]); RDParameters* p = resdet_alloc_default_parameters(); resdet_parameters_set_range(p,1); resdet_parameters_set_threshold(p,0);
	struct res a = {0}; RDAnalysis* an = resdet_create_analysis(me,w,h,p,&a.e);
	for(size_t f = 0; f < nf && !a.e; f++) { if(!(f%100)) mc_step(); a.e = resdet_analyze_image(an,img+f*w*h); }
	if(!a.e) a.e = resdet_analysis_results(an,&a.r[0],&a.n[0],&a.r[1],&a.n[1]);
	resdet_destroy_analysis(an);
	MC_CHECK(!a.e,"sequential","%s: sequential analysis gives error %d",desc,a.e);
	char* path = scratch_file("y4m"); write_file(path,b.p,b.n);
	for(int i = 0; i < 3; i++) {
		struct res r = fresh(); mc_step(); float* all = img; size_t n = nf, rw = w, rh = h;
		if(i == 1) r.e = resdetect_file(path,NULL,&r.r[0],&r.n[0],&r.r[1],&r.n[1],me,p);
		else {
			if(i == 2) {
				RDError e = resdet_read_image(path,NULL,&all,&n,&rw,&rh);
				MC_CHECK(!e && n == nf && rw == w && rh == h && !memcmp(all,img,sizeof(float)*w*h*nf),"read","%s: reading gives error %d, %zu frames of %zux%zu, or other pixels",desc,e,n,rw,rh);
			}
			r.e = resdetect(all,n,rw,rh,&r.r[0],&r.n[0],&r.r[1],&r.n[1],me,p);
		}
		same(&a,&r,i == 0 ? "the one-call function" : i == 1 ? "file detection" : "reading and one-call detection",desc,3);
		res_free(&r); if(i == 2) free(all);
	}
	mc_nontriv++; mc_outcome(res_hash(a.r[0],a.n[0],res_hash(a.r[1],a.n[1],nf)));
	res_free(&a); free(p); free(img); free(b.p);
}
static void mc_case(void) {
	if(mc_choose(2)) { case_many(); return; }
	static const struct { size_t w, h; } dims[] = {{1,1},{2,3},{5,4},{30,9},{9,30},{33,27},{64,48}};
	static const struct { size_t range; double thr; int filter; } opts[] = {{0,-1,0},{0,0,0},{2,-1,0},{3,0.5,0},{1,0,2},{0,0,3}};
	int k = mc_choose(MC_Q(6,7)), nf = mc_choose(MC_Q(4,6)), m = mc_choose(5)-1, op = mc_choose(6), fmt = mc_choose(3), defect = mc_choose(4), like = mc_choose(4);
	size_t w = dims[k].w, h = dims[k].h;
	if(nf == 0 && fmt != 2) mc_skip();    /* only Y4M can hold no frame at all */
	if(fmt == 0 && nf > 1) mc_skip();     /* PGM is a still */
	if(defect && (fmt != 1 || (defect == 2 && nf < 2))) mc_skip(); /* non-finite pixels need PFM */
	if(like && (nf < (like == 1 ? 2 : 3) || defect)) mc_skip();
	mc_mine();
	char desc[200];
	snprintf(desc,sizeof desc,"%zux%zu x%d method %s options %d %s%s%s",w,h,nf,m < 0 ? "default" : ref_method_name[m],op,fmt == 0 ? "pgm" : fmt == 1 ? "pfm" : "y4m",defect ? " with a non-finite pixel" : "",like == 1 ? " with the first frame repeated" : like == 2 ? " with the second frame repeated" : like == 3 ? " with two frames in turn" : "");
	mc_trace("%s",desc);
	float* img = malloc(sizeof(float)*w*h*(nf+1));
	struct buf b = {0};
	if(fmt == 2) buf_fmt(&b,"YUV4MPEG2 W%zu H%zu F25:1 Cmono\n",w,h);
	for(int f = 0; f < nf; f++) {
		float* p = img+f*w*h;
		for(size_t i = 0; i < w*h; i++) {
			int g = like == 1 ? f/2 : like == 2 ? (f+1)/2 : like == 3 ? f%2 : f; /* which of the different pictures this is */
			p[i] = fmt == 1 ? ref_noise(i,g,5) : (int)(ref_noise(i,g,5)*255)/255.f;
		}
		if(defect && f == (defect == 1 ? 0 : nf-1)) p[defect == 3 ? w*h-1 : 0] = defect == 3 ? INFINITY : NAN;
		if(fmt == 1) enc_pfm(&b,p,w,h,f&1);
		else {
			if(fmt == 0) buf_fmt(&b,"P5\n%zu %zu\n255\n",w,h); else buf_str(&b,"FRAME\n");
			for(size_t i = 0; i < w*h; i++) buf_byte(&b,(int)lrintf(p[i]*255));
		}
	}
	const char* ext = fmt == 0 ? "pgm" : fmt == 1 ? "pfm" : "y4m",* mime = fmt == 0 ? "image/x-portable-graymap" : fmt == 1 ? "image/x-portable-floatmap" : "video/yuv4mpeg";
	RDMethod* me = m < 0 ? NULL : resdet_get_method(ref_method_name[m]);
	RDParameters* p = resdet_alloc_default_parameters();
	if(opts[op].range) resdet_parameters_set_range(p,opts[op].range);
	if(opts[op].thr >= 0) resdet_parameters_set_threshold(p,opts[op].thr);
	if(opts[op].filter) resdet_parameters_set_compression_filter(p,opts[op].filter);

	/* sequential analysis is the reference */
	struct res a = {0};
	RDAnalysis* an = resdet_create_analysis(me,w,h,p,&a.e);
	for(int f = 0; f < nf && !a.e; f++) { mc_step(); a.e = resdet_analyze_image(an,img+f*w*h); }
	if(!a.e) a.e = resdet_analysis_results(an,&a.r[0],&a.n[0],&a.r[1],&a.n[1]);
	resdet_destroy_analysis(an);
	if(a.e != (nf == 0 ? RDENOIMG : defect ? RDEINVAL : RDEOK)) mc_fail("sequential","%s: sequential analysis gives error %d",desc,a.e);

	for(int mask = 0; mask < 4; mask++) {
		struct res r = fresh(); mc_step();
		r.e = resdetect(img,nf,w,h,mask&1 ? &r.r[0] : NULL,mask&1 ? &r.n[0] : NULL,mask&2 ? &r.r[1] : NULL,mask&2 ? &r.n[1] : NULL,me,p);
		same(&a,&r,mask == 3 ? "the one-call function" : "the one-call function for some dimensions",desc,mask);
		if(!(mask&1)) r.r[0] = NULL;
		if(!(mask&2)) r.r[1] = NULL;
		res_free(&r);
	}
	char* path = scratch_file(ext),* odd = scratch_file("dat");
	write_file(path,b.p,b.n); write_file(odd,b.p,b.n);
	struct { const char* what,* file,* type; } v[] = {
		{"file detection by extension",path,NULL}, {"file detection with a type",odd,ext}, {"file detection with a MIME type",odd,mime},
		{"file detection from a pipe","-",ext}, {"file detection from seekable standard input","-",mime},
	};
	for(int i = 0; i < 5; i++) {
		struct memstream ms;
		if(i >= 3) stdin_from(&ms,b.p,b.n,i == 4,i == 3 ? 7 : 0);
		struct res r = fresh(); mc_step();
		int mask = i == 1 ? 1 : i == 2 ? 2 : 3;
		r.e = resdetect_file(v[i].file,v[i].type,mask&1 ? &r.r[0] : NULL,mask&1 ? &r.n[0] : NULL,mask&2 ? &r.r[1] : NULL,mask&2 ? &r.n[1] : NULL,me,p);
		same(&a,&r,v[i].what,desc,mask);
		if(!(mask&1)) r.r[0] = NULL;
		if(!(mask&2)) r.r[1] = NULL;
		res_free(&r);
		if(i >= 3) stdin_restore();
	}
	/* read, then detect */
	for(int i = 0; i < 2; i++) {
		struct memstream ms;
		if(i) stdin_from(&ms,b.p,b.n,false,5);
		float* all = (void*)8; size_t n = 99, rw = 99, rh = 99; mc_step();
		RDError e = resdet_read_image(i ? "-" : path,i ? ext : NULL,&all,&n,&rw,&rh);
		if(i) stdin_restore();
		if(e || n != (size_t)nf || rw != w || rh != h || (nf && memcmp(all,img,sizeof(float)*w*h*nf)))
			mc_fail("read","%s: reading %s gives error %d, %zu frames of %zux%zu, or other pixels",desc,i ? "from a pipe" : "the file",e,n,rw,rh);
		else {
			struct res r = fresh(); mc_step();
			r.e = resdetect(all,n,rw,rh,&r.r[0],&r.n[0],&r.r[1],&r.n[1],me,p);
			same(&a,&r,"reading and one-call detection",desc,3);
			res_free(&r);
		}
		if(!e) free(all);
	}
	/* omitted arguments mean the defaults */
	if(m <= 0 || op == 0) {
		struct res r = fresh(); mc_step();
		r.e = resdetect(img,nf,w,h,&r.r[0],&r.n[0],&r.r[1],&r.n[1],m <= 0 ? (m ? resdet_get_method("sign") : NULL) : me,op ? p : NULL);
		same(&a,&r,"detection with defaults spelled out or omitted",desc,3);
		res_free(&r);
		r = fresh();
		r.e = resdetect(img,nf,w,h,&r.r[0],&r.n[0],&r.r[1],&r.n[1],m <= 0 ? resdet_methods() : me,op ? p : NULL);
		same(&a,&r,"detection with the first listed method",desc,3);
		res_free(&r);
	}
	if(!a.e) { mc_nontriv++; mc_outcome(res_hash(a.r[0],a.n[0],res_hash(a.r[1],a.n[1],m+1))); }
	else mc_outcome(mc_hashi(a.e,nf));
	if(mc_want_sample()) mc_sample("%s: 14 calls agree (error %d, %zu widths, %zu heights)",desc,a.e,a.n[0],a.n[1]);
	res_free(&a); free(p); free(img); free(b.p);
}
